//! C05 font tables, C06 font parser robustness, C07 shaping.
use super::common::*;
use super::pdf::*;
use crate::engine::*;
use crate::models::font::{self, Spec};
use crate::pdfp::Item;
use std::sync::Arc;
use victor::fonts::{Font, FontError, BITSTREAM_VERA_SANS};
use victor::pdf::Document;
use victor::primitives::{point, Length, Size, TextRun};
use victor::text::ShapedSegment;

fn shown_glyphs(segs: &[&ShapedSegment]) -> Result<Vec<Vec<u16>>, Fail> {
    let mut doc = Document::new();
    {
        let mut p = doc.add_page(Size::new(10., 10.));
        for s in segs {
            p.show_text(&TextRun { segment: s, font_size: Length::new(1.), origin: point(0., 0.) })
                .map_err(|e| Fail { sig: "show-text-error".into(), msg: format!("{:?}", e) })?;
        }
    }
    let bytes = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    Ok(pages[0]
        .items
        .iter()
        .filter_map(|i| match i {
            Item::Text { glyphs, .. } => Some(glyphs.clone()),
            _ => None,
        })
        .collect())
}

// ---------------------------------------------------------------- C05

fn probe_chars(g: &mut G, spec: &Spec) -> Vec<char> {
    let all: Vec<char> = spec.all().keys().cloned().collect();
    let mut v = vec![];
    // boundaries of every run of mapped characters
    for (i, c) in all.iter().enumerate() {
        let c32 = *c as u32;
        let edge = i == 0 || i + 1 == all.len() || all[i - 1] as u32 + 1 != c32 || all[i + 1] as u32 != c32 + 1;
        if edge && v.len() < 6000 {
            for d in &[c32.wrapping_sub(1), c32, c32 + 1] {
                if let Some(c) = std::char::from_u32(*d) {
                    v.push(c)
                }
            }
        }
    }
    for _ in 0..30 {
        if !all.is_empty() && g.chance(60) {
            v.push(*g.pick(&all));
        } else if let Some(c) = std::char::from_u32(g.int(0, 0x10ffff) as u32) {
            v.push(c);
        }
    }
    v.extend("\u{0} az\u{7f}\u{d7ff}\u{e000}\u{fffe}\u{ffff}\u{10000}\u{10ffff}".chars());
    v
}

fn spec_desc(s: &Spec) -> String {
    let cm: Vec<String> = s
        .cmaps
        .iter()
        .map(|r| {
            let d = match &r.sub {
                font::Sub::F4(s) => format!("f4 {} segs", s.len()),
                font::Sub::F12(s) => format!("f12 {} groups", s.len()),
                font::Sub::Other(f) => format!("f{}", f),
            };
            format!("({},{}) {}", r.platform, r.encoding, d)
        })
        .collect();
    format!(
        "{:?} upem {} {} glyphs {} metrics cmaps [{}] names {} tables+{} chosen {:?}",
        s.ps_name,
        s.upem,
        s.glyph_count,
        s.advances.len(),
        cm.join(", "),
        s.names.len(),
        s.extra_tables.len(),
        s.chosen().map(|c| {
            let t = format!("{:?}", c);
            t.chars().take(300).collect::<String>()
        })
    )
}

fn c05(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let spec = font::gen(g);
    cx.desc(spec_desc(&spec));
    cx.nontrivial = spec.all().len() > 1;
    cx.count("mapped characters", spec.all().len() as u64);
    if spec.advances.len() < spec.glyph_count as usize {
        cx.label("shared last metrics");
    }
    match spec.chosen() {
        Some(font::Sub::F12(_)) => cx.label("format 12"),
        _ => cx.label("format 4"),
    }
    let bytes = spec.build();
    // Borrowed bytes can be anywhere in memory, aligned or not
    let at = g.us(0, 9);
    let placed = Placed::new(&bytes, 0x5a, at);
    let parsed = if at > 0 { Font::parse(placed.bytes()) } else { Font::parse(bytes.clone()) };
    let font = match parsed {
        Ok(f) => f,
        Err(e) => return fail("valid-font-rejected", format!("a valid font is rejected: {:?}", e)),
    };
    ensure!(font.bytes() == &bytes[..], "font-bytes", "Font::bytes differs from the input");
    // glyph lookup
    let chars = probe_chars(g, &spec);
    let text: String = chars.iter().collect();
    let seg = ShapedSegment::naive_shape(&text, font.clone()).map_err(|e| Fail { sig: "shape-error".into(), msg: format!("{:?}", e) })?;
    let got = shown_glyphs(&[&seg])?.pop().unwrap_or_default();
    ensure!(got.len() == chars.len(), "glyph-count", "{} characters, {} glyphs", chars.len(), got.len());
    for (c, gid) in chars.iter().zip(&got) {
        let want = spec.glyph(*c);
        ensure!(*gid == want, "glyph-lookup", "U+{:04X}: glyph {} in the font's map, Victor shows {}", *c as u32, want, gid);
    }
    // advances and vertical metrics, as observed by laying out text
    let pairs: Vec<(char, char)> = chars
        .iter()
        .filter(|c| !c.is_whitespace() && !c.is_control() && (**c as u32) < 0x250 && c.is_alphanumeric())
        .take(8)
        .map(|c| (*c, 'x'))
        .collect();
    if !pairs.is_empty() {
        let mut text = String::new();
        for (c, x) in &pairs {
            text.push(*c);
            text.push(' ');
            text.push(*x);
            text.push(' ');
        }
        let style = victor::text_plain::Style {
            // a line of up to 32 glyphs of up to 65535 em fits
            page_size: Size::new(1e9, 1e6),
            page_margin: Length::new(0.),
            font: font.clone(),
            font_size: Length::new(64.),
            line_height: 1.0,
            justify: false,
        };
        let doc = victor::text_plain::layout(&text, &style).map_err(|e| Fail { sig: "layout-error".into(), msg: format!("{:?}", e) })?;
        let b = doc.write_to_pdf_bytes();
        let pdf = parse_pdf(&b)?;
        let page = &pages_of(&pdf)?[0];
        let mut x = 0.0f64;
        let baseline = 64. * spec.ascender as f64 / spec.upem as f64;
        for i in &page.items {
            if let Item::Text { glyphs, x: ix, y, .. } = i {
                ensure!(close(*ix, x, 1e-4, 1e-2), "advance", "a run should start at {}, starts at {} ({})", x, ix, text);
                ensure!(close(*y, baseline, 1e-4, 1e-2), "ascender", "baseline at {}, expected {}", y, baseline);
                x += 64. * glyphs.iter().map(|g| spec.advance(*g).unwrap()).sum::<f64>();
            }
        }
    }
    // embedding agrees as well (name, bounding box, widths, the whole reverse map)
    let seg = ShapedSegment::naive_shape("a", font.clone()).unwrap();
    let mut doc = Document::new();
    doc.add_page(Size::new(10., 10.))
        .show_text(&TextRun { segment: &seg, font_size: Length::new(1.), origin: point(0., 0.) })
        .map_err(|e| Fail { sig: "show-text-error".into(), msg: format!("{:?}", e) })?;
    let b = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&b)?;
    let fonts = pdf.fonts().map_err(|e| Fail { sig: "malformed-pdf".into(), msg: e })?;
    ensure!(fonts.len() == 1, "font-count", "{} fonts", fonts.len());
    let e = read_embedded(&pdf, fonts.values().next().unwrap())?;
    check_embedded(&e, &spec)
}

/// fonts that lack something required are rejected with the documented error
fn c05_reject(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut spec = font::gen(g);
    let kind = g.us(0, 5);
    let want: &str = match kind {
        0 => {
            spec.missing = Some(*g.pick(&[*b"cmap", *b"head", *b"hhea", *b"hmtx", *b"maxp", *b"name"]));
            "MissingTable"
        }
        1 => {
            spec.scaler = *g.pick(&[0x4F54544Fu32, 0x74797031, 0x00020000, 0]);
            "UnsupportedFormat"
        }
        2 => {
            spec.names.retain(|n| n.name_id != 6 || n.platform == 0);
            "NoSupportedPostscriptName"
        }
        3 => {
            spec.cmaps.retain(|r| r.platform != 3 || r.encoding == 0 || r.encoding == 11);
            "NoSupportedCmap"
        }
        4 => {
            spec.advances.clear();
            "NoHorizontalGlyphMetrics"
        }
        _ => "ok",
    };
    cx.desc(format!("expect {}: {}", want, spec_desc(&spec)));
    cx.nontrivial = kind != 5;
    cx.label(want);
    let name = |e: &FontError| format!("{:?}", e);
    match Font::parse(spec.build()) {
        Ok(f) => {
            if kind == 4 {
                match ShapedSegment::naive_shape("a", f) {
                    Err(e) => ensure!(name(&e) == want, "wrong-error", "expected {}, got {:?}", want, e),
                    Ok(_) => return fail("no-error", "a font without metrics is shaped"),
                }
            } else {
                ensure!(kind == 5, "no-error", "expected {}, the font is accepted", want);
            }
        }
        Err(e) => ensure!(name(&e) == want, "wrong-error", "expected {}, got {:?}", want, e),
    }
    Ok(())
}

pub fn tables() -> Prop {
    Prop {
        id: "C05",
        rule: "generated valid TrueType fonts (random table order, padding, cmap formats 4 and 12 with delta and array segments, decoy subtables and names, short hmtx); every segment boundary plus random code points is looked up; non-trivial = at least two mapped characters (or, for rejection, a required part removed)",
        assumptions: &["the font builder's own meaning is the reference"],
        parts: vec![part("valid fonts", 20_000, 160_000, c05), part("rejection", 12_000, 60_000, c05_reject)],
    }
}

// ---------------------------------------------------------------- C06

fn use_font(font: Arc<Font>, cx: &mut Cx) -> Result<(), Fail> {
    let mut ok = vec![];
    for t in &["a", "Hello, wörld", "\u{ffff}", "\u{1F600}\u{10FFFF}", "\u{0}\u{7f}\u{e000}"] {
        match ShapedSegment::naive_shape(t, font.clone()) {
            Ok(s) => ok.push(s),
            Err(_) => cx.label("shaping refused"),
        }
    }
    let mut doc = Document::new();
    let mut shown = 0;
    {
        let mut p = doc.add_page(Size::new(100., 100.));
        for s in &ok {
            if p.show_text(&TextRun { segment: s, font_size: Length::new(16.), origin: point(1., 2.) }).is_ok() {
                shown += 1;
            }
        }
    }
    if shown > 0 {
        cx.label("embedded");
    }
    let bytes = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let pages = pages_of(&pdf)?;
    ensure!(pages.len() == 1 && pages[0].items.len() == shown, "items", "{} runs shown, {} in the file", shown, pages[0].items.len());
    let style = victor::text_plain::Style {
        page_size: Size::new(50., 50.),
        page_margin: Length::new(5.),
        font: font.clone(),
        font_size: Length::new(16.),
        line_height: 1.5,
        justify: true,
    };
    if let Ok(d) = victor::text_plain::layout("ab cd ef gh ij kl", &style) {
        let bytes = d.write_to_pdf_bytes();
        let pdf = parse_pdf(&bytes)?;
        pages_of(&pdf)?;
        cx.label("laid out");
    }
    Ok(())
}

/// The bytes of a font in the middle of other bytes, given back on drop.
struct Placed(*mut [u8], usize, usize);

impl Placed {
    fn new(b: &[u8], around: u8, before: usize) -> Placed {
        const AFTER: usize = 4096;
        let mut v = Vec::with_capacity(before + b.len() + AFTER);
        v.extend(std::iter::repeat(around).take(before));
        v.extend_from_slice(b);
        v.extend(std::iter::repeat(around).take(AFTER));
        Placed(Box::into_raw(v.into_boxed_slice()), before, before + b.len())
    }

    /// Only while `self` lives: every font made of these bytes is dropped before
    fn bytes(&self) -> &'static [u8] {
        unsafe { &(&*self.0)[self.1..self.2] }
    }
}

impl Drop for Placed {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

/// What a user can see of a font file
fn outcome(bytes: &'static [u8]) -> (String, Vec<Vec<u8>>) {
    let font = match Font::parse(bytes) {
        Ok(f) => f,
        Err(e) => return (format!("{:?}", e), vec![]),
    };
    let mut said = String::from("loaded");
    let mut files = vec![];
    for t in &["a", "Hello, wörld", "\u{ffff}", "\u{1F600}\u{10FFFF}"] {
        match ShapedSegment::naive_shape(t, font.clone()) {
            Err(e) => said.push_str(&format!(", {:?}", e)),
            Ok(s) => {
                let mut doc = Document::new();
                let run = TextRun { segment: &s, font_size: Length::new(16.), origin: point(1., 2.) };
                let shown = doc.add_page(Size::new(100., 100.)).show_text(&run).err();
                said.push_str(&format!(", {:?}", shown));
                files.push(doc.write_to_pdf_bytes());
            }
        }
    }
    (said, files)
}

/// A file says what its own bytes say: nothing depends on the memory that follows it
fn same_whatever_follows(b: &[u8]) -> Result<(), Fail> {
    let (zeros, ones) = (Placed::new(b, 0, 0), Placed::new(b, 0xff, 0));
    let (x, y) = (outcome(zeros.bytes()), outcome(ones.bytes()));
    ensure!(
        x.0 == y.0,
        "reads-past-the-end",
        "the same {} bytes: {} when followed by zeros, {} when followed by ones",
        b.len(),
        x.0,
        y.0
    );
    ensure!(x.1 == y.1, "reads-past-the-end", "the PDF files differ with what follows the font in memory");
    Ok(())
}

/// Move the data of a table to the end of the file and cut it there
fn cut_table(g: &mut G, b: &mut Vec<u8>) {
    let n = if b.len() > 6 { ((b[4] as usize) << 8 | b[5] as usize).min(20).max(1) } else { return };
    let e = 12 + 16 * g.us(0, n - 1);
    if e + 16 > b.len() {
        return;
    }
    let field = |b: &[u8], i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let (at, len) = (field(b, e + 8), field(b, e + 12));
    if at > b.len() {
        return;
    }
    let len = len.min(b.len() - at);
    let keep = match g.weighted(&[4, 2, 1]) {
        0 => g.us(0, len.min(60)),
        1 => len - g.us(0, len.min(20)),
        _ => g.us(0, len),
    };
    let data = b[at..at + keep].to_vec();
    let end = b.len() as u32;
    b[e + 8..e + 12].copy_from_slice(&end.to_be_bytes());
    b.extend(data);
}

fn interesting16(g: &mut G) -> u16 {
    match g.weighted(&[3, 3, 2]) {
        0 => *g.pick(&[0u16, 1, 2, 0xffff, 0xfffe, 0x7fff, 0x8000, 0x8001, 4, 12]),
        1 => g.int(0, 300) as u16,
        _ => g.int(0, 65535) as u16,
    }
}

fn mutate_bytes(g: &mut G, b: &mut Vec<u8>) -> usize {
    let n = g.list(1, 3, 12, |_| ()).len();
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        match g.weighted(&[5, 4, 3, 2, 1]) {
            0 => {
                // header-ish areas are more interesting: half of the time inside a table that is parsed
                let i = pos(g, b);
                let v = interesting16(g).to_be_bytes();
                for k in 0..2 {
                    if i + k < b.len() {
                        b[i + k] = v[k];
                    }
                }
            }
            1 => {
                let i = pos(g, b);
                let v = match g.weighted(&[3, 2]) {
                    0 => *g.pick(&[0u32, 1, 0xffff_ffff, 0xffff_fff0, 0x7fff_ffff, 0x8000_0000, 0x10_ffff, 0x11_0000, 0xffff_0000]),
                    _ => g.int(0, 0x20000) as u32,
                }
                .to_be_bytes();
                for k in 0..4 {
                    if i + k < b.len() {
                        b[i + k] = v[k];
                    }
                }
            }
            2 => {
                let i = pos(g, b);
                b[i] = g.int(0, 255) as u8;
            }
            3 => {
                let i = g.us(0, b.len() - 1);
                b.truncate(i);
            }
            _ => {
                let i = g.us(0, b.len() - 1);
                let l = g.us(1, 16).min(b.len() - i);
                b.drain(i..i + l);
            }
        }
    }
    n
}

fn pos(g: &mut G, b: &[u8]) -> usize {
    // choose a table of the directory, then an offset near its start
    let n = if b.len() > 6 { (((b[4] as usize) << 8 | b[5] as usize).min(20)).max(1) } else { 1 };
    if g.chance(80) {
        let e = 12 + 16 * g.us(0, n - 1);
        if g.chance(15) {
            return (e + g.us(0, 15)).min(b.len() - 1);
        }
        if e + 16 <= b.len() {
            let off = u32::from_be_bytes([b[e + 8], b[e + 9], b[e + 10], b[e + 11]]) as usize;
            let near = match g.weighted(&[4, 2]) {
                0 => g.us(0, 60),
                _ => g.us(0, 600),
            };
            return (off.saturating_add(near & !1)).min(b.len() - 1);
        }
    }
    g.us(0, b.len() - 1)
}

fn c06_mutated(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut b = if g.chance(85) {
        font::gen(g).build()
    } else {
        repo_font(*g.pick(&["ahem/ahem.ttf", "noto/NotoSansLinearB-Regular.ttf"]))
    };
    let n = if g.chance(85) { mutate_bytes(g, &mut b) } else { 0 };
    let cut = n == 0 || g.chance(5);
    if cut {
        cut_table(g, &mut b);
        cx.label("table cut by the end of the file");
    }
    if g.chance(if cut { 100 } else { 20 }) {
        same_whatever_follows(&b)?;
    }
    cx.desc(format!("{} mutations, {} bytes, hash {:x}", n, b.len(), hash_str(&format!("{:?}", b))));
    match Font::parse(b) {
        Ok(f) => {
            cx.nontrivial = true;
            cx.label("parsed");
            use_font(f, cx)
        }
        Err(e) => {
            cx.label(&format!("{:?}", e));
            Ok(())
        }
    }
}

/// structurally hostile fonts: the parts are valid containers with adversarial numbers inside
fn c06_hostile(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut spec = font::gen(g);
    let w = |g: &mut G| -> u32 {
        match g.weighted(&[4, 3, 2]) {
            0 => *g.pick(&[0u32, 0x20, 0x61, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffff, 0xfffffffe]),
            1 => g.int(0, 400) as u32,
            _ => g.upto(u32::max_value() as u64) as u32,
        }
    };
    spec.cmaps.clear();
    if g.chance(50) {
        let groups = g.list(0, 4, 60, |g| font::Group { start: w(g), end: w(g), glyph: w(g) });
        spec.cmaps.push(font::CmapRec { platform: 3, encoding: 10, sub: font::Sub::F12(groups) });
    } else {
        let segs = g.list(0, 4, 60, |g| {
            let (start, end) = (w(g) as u16, w(g) as u16);
            let kind = if g.chance(50) {
                font::SegKind::Delta(w(g) as u16)
            } else {
                font::SegKind::Array(w(g) as u16, vec![w(g) as u16; (end.wrapping_sub(start) % 50) as usize])
            };
            font::Seg { start, end, kind }
        });
        spec.cmaps.push(font::CmapRec { platform: 3, encoding: 1, sub: font::Sub::F4(segs) });
    }
    if g.chance(20) {
        spec.upem = *g.pick(&[0u16, 1, 0xffff]);
    }
    if g.chance(20) {
        spec.ps_name = None;
        for n in &mut spec.names {
            if n.name_id == 6 {
                n.bytes = g.list(0, 5, 30, |g| 1 + g.int(0, 254) as u8);
            }
        }
    }
    let b = spec.build();
    cx.desc(format!("{} | {:?}", spec_desc(&spec), spec.cmaps.get(0).map(|c| format!("{:?}", c).chars().take(400).collect::<String>())));
    if g.chance(20) {
        same_whatever_follows(&b)?;
    }
    match Font::parse(b) {
        Ok(f) => {
            cx.nontrivial = true;
            use_font(f, cx)
        }
        Err(e) => {
            cx.label(&format!("{:?}", e));
            Ok(())
        }
    }
}

fn c06_bytes(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut b: Vec<u8> = vec![];
    let mut n = 12;
    if g.chance(80) {
        b.extend(&[0, 1, 0, 0]);
        n = 8;
    }
    for _ in 0..n {
        b.push(g.int(0, 255) as u8)
    }
    let extra = g.list(0, 40, 300, |g| g.int(0, 255) as u8);
    b.extend(extra);
    cx.desc(format!("{:?}", b));
    cx.nontrivial = b.len() > 12;
    same_whatever_follows(&b)?;
    match Font::parse(b) {
        Ok(f) => use_font(f, cx),
        Err(_) => Ok(()),
    }
}

pub fn robust() -> Prop {
    let mut p = vec![
        part("mutated fonts", 40_000, 1_500_000, c06_mutated),
        part("hostile cmaps and names", 16_000, 400_000, c06_hostile),
        part("random bytes", 20_000, 1_000_000, c06_bytes),
    ];
    p[0].guided = 30;
    p[1].guided = 30;
    p[2].guided = 60;
    Prop {
        id: "C06",
        rule: "byte strings: valid fonts with 1-12 mutations aimed at table fields, fonts with adversarial numbers in otherwise valid containers, and short random files grown by edge-coverage guidance; each accepted font is shaped, embedded, and laid out; non-trivial = the font was accepted",
        assumptions: &["termination is decided by a deterministic edge-execution budget (1.5e9 edges; ordinary cases stay below 1% of it)"],
        parts: p,
    }
}

// ---------------------------------------------------------------- C07

fn c07(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    // fonts whose hmtx is cut short make append fail half-way
    let (font, spec): (Arc<Font>, Option<Spec>) = if g.chance(30) {
        (BITSTREAM_VERA_SANS.clone(), None)
    } else {
        let s = if g.chance(50) { font::gen(g) } else { font::gen_simple(g) };
        match Font::parse(s.build()) {
            Ok(f) => (f, Some(s)),
            Err(e) => return fail("valid-font-rejected", format!("{:?}", e)),
        }
    };
    let glyph = |c: char| match &spec {
        Some(s) => s.glyph(c),
        None => font::VERA.glyph(c),
    };
    let fu = FontUse { font: font.clone(), spec: spec.clone() };
    // several segments, so that state from one used on another is exercised as the API allows
    let mut segs: Vec<(ShapedSegment, Vec<u16>)> = vec![(ShapedSegment::new_with_naive_shaping(font.clone()), vec![])];
    let mut saved: Vec<(usize, victor::text::ShapedSegmentState, Vec<u16>)> = vec![];
    let mut log = String::new();
    let mut restored = 0;
    let n = g.list(1, 10, 60, |_| ()).len();
    for _ in 0..n {
        let i = g.us(0, segs.len() - 1);
        match g.weighted(&[5, 4, 3, 3, 1, 1, 2]) {
            0 => {
                let t = gen_text(g, &fu);
                log.push_str(&format!(" append({},{:?})", i, t));
                segs[i].0.append(t.chars()).map_err(|e| Fail { sig: "append".into(), msg: format!("{:?}", e) })?;
                segs[i].1.extend(t.chars().map(glyph));
            }
            1 => {
                let t = gen_text(g, &fu);
                let c = t.chars().next().unwrap_or('a');
                log.push_str(&format!(" append_char({},{:?})", i, c));
                segs[i].0.append_char(c).map_err(|e| Fail { sig: "append".into(), msg: format!("{:?}", e) })?;
                segs[i].1.push(glyph(c));
            }
            2 => {
                log.push_str(&format!(" save({})", i));
                let st = segs[i].0.save();
                let m = segs[i].1.clone();
                saved.push((i, st, m));
            }
            3 => {
                if let Some(k) = saved.iter().rposition(|s| s.0 == i && segs[i].1.starts_with(&s.2)) {
                    log.push_str(&format!(" restore({})", i));
                    segs[i].0.restore(&saved[k].1);
                    if segs[i].1.len() > saved[k].2.len() {
                        restored += 1;
                    }
                    segs[i].1 = saved[k].2.clone();
                    if g.chance(50) {
                        saved.truncate(k);
                    }
                }
            }
            4 => {
                log.push_str(&format!(" clone({})", i));
                let c = (segs[i].0.clone(), segs[i].1.clone());
                segs.push(c);
            }
            5 => {
                log.push_str(" new");
                segs.push((ShapedSegment::new_with_naive_shaping(font.clone()), vec![]));
            }
            _ => {
                let t = gen_text(g, &fu);
                log.push_str(&format!(" naive_shape({:?})", t));
                let s = ShapedSegment::naive_shape(&t, font.clone()).map_err(|e| Fail { sig: "append".into(), msg: format!("{:?}", e) })?;
                segs.push((s, t.chars().map(glyph).collect()));
            }
        }
    }
    cx.desc(log.clone());
    cx.nontrivial = restored > 0;
    if restored > 0 {
        cx.label("restore that drops glyphs");
    }
    let refs: Vec<&ShapedSegment> = segs.iter().map(|s| &s.0).collect();
    let got = shown_glyphs(&refs)?;
    for (i, (a, b)) in got.iter().zip(segs.iter().map(|s| &s.1)).enumerate() {
        ensure!(a == b, "segment-glyphs", "segment {}: expected {:?}, shows {:?}", i, b, a);
    }
    ensure!(got.len() == segs.len(), "segment-count", "{} segments, {} runs", segs.len(), got.len());
    Ok(())
}

/// histories of a segment that has tens of thousands of glyphs
fn c07_long(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let font: Arc<Font> = BITSTREAM_VERA_SANS.clone();
    let mut segs: Vec<(ShapedSegment, Vec<u16>)> = vec![(ShapedSegment::new_with_naive_shaping(font.clone()), vec![])];
    let mut saved: Option<(usize, victor::text::ShapedSegmentState, Vec<u16>)> = None;
    let mut log = String::new();
    let mut restored = 0;
    let n = g.list(5, 8, 14, |_| ()).len();
    for _ in 0..n {
        let i = if g.chance(75) { 0 } else { g.us(0, segs.len() - 1) };
        let len = segs[i].1.len();
        match g.weighted(&[5, 3, 5, 1]) {
            0 if len < 140_000 => {
                // up to one of the lengths at which a counter of fewer bits ends, or any
                let n = match g.weighted(&[2, 2, 3]) {
                    0 => g.us(1, 400),
                    1 => g.us(1_000, 70_000),
                    _ => {
                        let l = *g.pick(&[1 << 8, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17]);
                        (l + g.us(0, 3)).saturating_sub(len + 1) + 1
                    }
                };
                let at = g.us(0, ALNUM.len() - 1);
                let t: String = (0..n).map(|i| ALNUM[(at + i + i / 100) % ALNUM.len()]).collect();
                log.push_str(&format!(" append({}, {} characters from {})", i, n, at));
                segs[i].0.append(t.chars()).map_err(|e| Fail { sig: "append".into(), msg: format!("{:?}", e) })?;
                segs[i].1.extend(t.chars().map(|c| font::VERA.glyph(c)));
            }
            2 if saved.as_ref().map_or(false, |s| s.0 == i && segs[i].1.starts_with(&s.2)) => {
                log.push_str(&format!(" restore({})", i));
                let s = saved.as_ref().unwrap();
                segs[i].0.restore(&s.1);
                restored += (len > s.2.len()) as usize;
                segs[i].1 = s.2.clone();
            }
            3 => {
                log.push_str(&format!(" clone({})", i));
                let c = (segs[i].0.clone(), segs[i].1.clone());
                segs.push(c);
            }
            _ => {
                log.push_str(&format!(" save({})", i));
                saved = Some((i, segs[i].0.save(), segs[i].1.clone()));
            }
        }
    }
    cx.desc(log);
    cx.nontrivial = restored > 0 && segs.iter().any(|s| s.1.len() > 65_535);
    let refs: Vec<&ShapedSegment> = segs.iter().map(|s| &s.0).collect();
    let got = shown_glyphs(&refs)?;
    ensure!(got.len() == segs.len(), "segment-count", "{} segments, {} runs", segs.len(), got.len());
    for (i, (a, b)) in got.iter().zip(segs.iter().map(|s| &s.1)).enumerate() {
        let at = a.iter().zip(b).position(|(a, b)| a != b);
        ensure!(a == b, "segment-glyphs", "segment {}: {} glyphs expected, {} shown, first difference at {:?}", i, b.len(), a.len(), at);
    }
    Ok(())
}

/// words laid out one after the other on one very long line: each starts where the glyphs before it end
fn c07_plain(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (font, spec): (Arc<Font>, Option<Spec>) = if g.chance(50) {
        (BITSTREAM_VERA_SANS.clone(), None)
    } else {
        let s = font::gen_simple(g);
        match Font::parse(s.build()) {
            Ok(f) => (f, Some(s)),
            Err(e) => return fail("valid-font-rejected", format!("{:?}", e)),
        }
    };
    let adv = |gid: u16| match &spec {
        Some(s) => s.advance(gid).unwrap(),
        None => font::VERA.advances[gid as usize],
    };
    let words = g.list(2, 6, 30, |g| {
        let n = match g.weighted(&[4, 2, 1]) {
            0 => g.us(1, 8),
            1 => g.us(1, 60),
            _ => g.us(1, 600),
        };
        let same = g.chance(30);
        let first = *g.pick(&ALNUM[..]);
        (0..n).map(|_| if same { first } else { *g.pick(&ALNUM[..]) }).collect::<String>()
    });
    let size = *g.pick(&[16.0f32, 100., 7.3, 64., 0.75]);
    let text = words.join(" ");
    cx.desc(format!("{:?} at {} {}", text, size, if spec.is_some() { "generated font" } else { "Vera" }));
    cx.nontrivial = text.len() > 20;
    let style = victor::text_plain::Style {
        page_size: Size::new(1e7, 1e3),
        page_margin: Length::new(0.),
        font,
        font_size: Length::new(size),
        line_height: 1.0,
        justify: false,
    };
    let doc = victor::text_plain::layout(&text, &style).map_err(|e| Fail { sig: "layout-error".into(), msg: format!("{:?}", e) })?;
    let page = one_page(&doc.write_to_pdf_bytes())?;
    let (mut x, mut count) = (0., 0usize);
    for i in &page.items {
        if let Item::Text { glyphs, x: ix, .. } = i {
            // single precision: one rounding per glyph and per word, which can all go the same way
            let tolerance = x * (1e-6 + 6e-8 * count as f64) + 1e-6;
            ensure!((ix - x).abs() <= tolerance, "advance-sum", "after {} glyphs, the sum of advances is {}, text starts at {}", count, x, ix);
            x += glyphs.iter().map(|g| adv(*g)).sum::<f64>() * size as f64;
            count += glyphs.len();
        }
    }
    ensure!(count == text.chars().count(), "glyph-count", "{} glyphs for {} characters", count, text.chars().count());
    Ok(())
}

lazy_static::lazy_static! {
    static ref ALNUM: Vec<char> = "eaimWlj0t.AV,fwk-Q\u{e9}".chars().collect();
}

/// text of a paragraph in pieces, each with its own colours: on each line, the background of a piece is as wide
/// as its glyphs, and each piece starts where the one before ends
fn c07_html(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let size = *g.pick(&[16.0f64, 25., 7.3, 3.5, 1.25]);
    let width = match g.weighted(&[3, 2, 1]) {
        0 => g.int(20, 590) as f64,
        1 => 590.,
        _ => g.int(160, 9440) as f64 / 16.,
    };
    let mut html = format!("<!doctype html><body style='margin:0'><p style='margin:0;font-size:{}px;width:{}px'>", size, width);
    let pieces = g.list(1, 4, 20, |g| {
        let words = g.list(1, 4, 40, |g| {
            let n = if g.chance(80) { g.us(1, 6) } else { g.us(1, 60) };
            let same = g.chance(30);
            let first = *g.pick(&ALNUM[..]);
            (0..n).map(|_| if same { first } else { *g.pick(&ALNUM[..]) }).collect::<String>()
        });
        let mut s = words.join(" ");
        if g.chance(30) {
            s.push(' ')
        }
        if g.chance(15) {
            s.insert(0, ' ')
        }
        s
    });
    for (i, t) in pieces.iter().enumerate() {
        html.push_str(&format!("<span style='color:rgb({},0,0);background:rgb(0,{},0)'>{}</span>", i + 1, i + 1, t));
    }
    cx.desc(html.clone());
    let page = html_page(html.as_bytes())?;
    let tolerance = 2e-3;
    // (baseline, piece) -> start and end of the glyphs
    let mut runs: Vec<(f64, usize, f64, f64)> = vec![];
    let mut rects: Vec<(usize, f64, f64, f64, f64)> = vec![];
    for i in &page.items {
        match i {
            Item::Text { glyphs, x, y, rgb, size: fs, .. } => {
                ensure!(close(*fs, size, 1e-6, 0.), "font-size", "{}", fs);
                let n = (rgb[0] * 255.).round() as usize;
                let end = x + size * glyphs.iter().map(|g| font::VERA.advances[*g as usize]).sum::<f64>();
                if let Some(last) = runs.last_mut() {
                    if last.0 == *y {
                        ensure!((last.3 - x).abs() <= tolerance, "advance-sum", "piece {}: text starts at {}, but that before it ends at {}", n - 1, x, last.3);
                        if last.1 == n {
                            last.3 = end;
                            continue;
                        }
                    }
                }
                runs.push((*y, n, *x, end));
            }
            Item::Rect { x, y, w, h, rgb, .. } => rects.push(((rgb[1] * 255.).round() as usize, *x, *y, *w, *h)),
        }
    }
    let lines = runs.windows(2).filter(|w| w[0].0 != w[1].0).count() + 1;
    cx.nontrivial = pieces.len() > 1 && lines > 1;
    if lines > 1 {
        cx.label("several lines");
    }
    for (n, x, y, w, h) in rects.iter().filter(|r| r.3 > tolerance) {
        ensure!(
            runs.iter().any(|r| r.1 == *n && *y < r.0 && r.0 < y + h),
            "advance-of-nothing",
            "piece {}: a background {} wide at {},{} where it has no glyphs", n - 1, w, x, y
        );
    }
    for (baseline, n, start, end) in &runs {
        let (left, right) = rects
            .iter()
            .filter(|r| r.0 == *n && r.2 < *baseline && *baseline < r.2 + r.4 && r.3 > 0.)
            .fold((f64::MAX, f64::MIN), |a, r| (a.0.min(r.1), a.1.max(r.1 + r.3)));
        if end - start < tolerance && left > right {
            continue;
        }
        ensure!(
            (left - start).abs() <= tolerance && (right - end).abs() <= tolerance,
            "advance-of-piece",
            "piece {}: glyphs from {} to {}, background from {} to {} (baseline {})", n - 1, start, end, left, right, baseline
        );
    }
    Ok(())
}

pub fn shaping() -> Prop {
    Prop {
        id: "C07",
        rule: "(histories) random histories of append / append_char / save / restore / clone over several segments of one font against a vector model; non-trivial = at least one restore that drops glyphs; (long) the same with tens of thousands of glyphs; non-trivial = a restore that drops glyphs and a segment of more than 65535; (advances of words) words of up to 600 glyphs on one line, each starting at the sum of the advances before, to single precision; non-trivial = more than 20 characters; (advances of pieces) paragraphs cut into spans and lines, where backgrounds and positions show the advance recorded for each piece; non-trivial = several pieces and lines",
        assumptions: &["a saved state is restored only on the segment it came from while its glyphs are still a prefix (the documented use)"],
        parts: vec![
            part("histories", 40_000, 400_000, c07),
            part("long", 1_600, 20_000, c07_long),
            part("advances of words", 20_000, 200_000, c07_plain),
            part("advances of pieces", 16_000, 200_000, c07_html),
        ],
    }
}
