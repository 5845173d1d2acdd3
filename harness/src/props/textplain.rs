//! C08 plain text layout.
use super::common::*;
use crate::engine::*;
use crate::models::font;
use crate::pdfp::Item;
use victor::fonts::{Font, BITSTREAM_VERA_SANS};
use victor::primitives::{Length, Size};
use victor::text_plain::{layout, Style};
use xi_unicode::LineBreakIterator;

#[derive(Debug, Clone)]
struct Run {
    glyphs: Vec<u16>,
    x: f64,
    y: f64,
}

pub fn gen_plain(g: &mut G, simple: bool) -> String {
    let words: &[&str] = &["a", "in", "the", "word", "longerword", "extraordinarily", "W", "iiii", "x-y", "1.5", "(b)", "é"];
    let seps: &[&str] = if simple {
        &[" ", " ", " ", "\n", "\n\n", "  "]
    } else {
        &[" ", " ", " ", "\n", "\n\n", "  ", "\t", "\r\n", "\u{a0}", "\u{2028}", "-", "\u{200b}", "\u{85}", "/", "\u{b}", "漢字", "\n \n"]
    };
    let mut s = String::new();
    if g.chance(10) {
        s.push_str(*g.pick(seps));
    }
    let n = match g.weighted(&[4, 3, 1]) {
        0 => g.list(0, 5, 20, |_| ()).len(),
        1 => g.list(0, 20, 80, |_| ()).len(),
        _ => g.list(0, 60, 300, |_| ()).len(),
    };
    for _ in 0..n {
        s.push_str(*g.pick(words));
        s.push_str(*g.pick(seps));
    }
    s
}

fn gen_long(g: &mut G) -> String {
    let words: &[&str] = &["a", "in", "the", "word", "i", "W", "x-y", "1.5", "é", "😀", "\u{10ffff}", "𝒳x"];
    let mut s = String::new();
    let lines = g.list(1, 4, 400, |_| ()).len();
    for _ in 0..lines {
        // the same few words again and again: the number matters
        let n = match g.weighted(&[1, 1, 1]) {
            0 => g.us(0, 5),
            1 => g.us(100, 300),
            _ => g.us(250, 1_100),
        };
        let n = if lines > 20 { n % 10 } else { n };
        let mut word = *g.pick(words);
        for i in 0..n {
            if i % 64 == 0 {
                word = *g.pick(words)
            }
            s.push_str(word);
            s.push(if i % 50 == 49 { '-' } else { ' ' })
        }
        s.push_str(*g.pick(&["\n", "\n", "\n\n", ""]))
    }
    s
}

fn c08(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    check(g, cx, false, false)
}

/// Hundreds of words on a line, or hundreds of lines, or characters outside of the basic multilingual plane
fn c08_long(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    check(g, cx, false, true)
}

/// All lengths are multiples of a small power of two, so there are no rounding errors:
/// what fits exactly does fit
fn c08_exact(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    check(g, cx, true, false)
}

fn check(g: &mut G, cx: &mut Cx, exact: bool, long: bool) -> Result<(), Fail> {
    let vera = !exact && g.chance(60);
    let (fnt, rf) = if exact {
        let mut s = font::gen_simple(g);
        s.upem = 1024;
        for a in &mut s.advances {
            *a = *g.pick(&[512, 256, 768, 1024, 0])
        }
        let b = s.build();
        (Font::parse(b).map_err(|e| Fail { sig: "valid-font-rejected".into(), msg: format!("{:?}", e) })?, Some(s))
    } else if vera {
        (BITSTREAM_VERA_SANS.clone(), None)
    } else {
        let s = if g.chance(70) { font::gen_simple(g) } else { font::gen(g) };
        let b = s.build();
        (Font::parse(b).map_err(|e| Fail { sig: "valid-font-rejected".into(), msg: format!("{:?}", e) })?, Some(s))
    };
    let adv = |gid: u16| -> f64 {
        match &rf {
            Some(s) => s.advance(gid).unwrap(),
            None => font::VERA.advances[gid as usize],
        }
    };
    let glyph = |c: char| match &rf {
        Some(s) => s.glyph(c),
        None => font::VERA.glyph(c),
    };
    let asc = match &rf {
        Some(s) => s.ascender as f64 / s.upem as f64,
        None => font::VERA.ascender,
    };
    let simple = g.chance(50);
    let text = if long { gen_long(g) } else { gen_plain(g, simple) };
    let px = |mm: f64| if exact { (mm / 6.35).round() * 24. } else { mm * 96. / 25.4 };
    let w_mm = match g.weighted(&[4, 3, 1]) {
        0 => g.int(15, 120) as f32,
        1 => *g.pick(&[210.0f32, 148.5, 99.9]),
        _ => g.int(1, 15) as f32,
    };
    let h_mm = match g.weighted(&[4, 3, 1]) {
        0 => g.int(10, 60) as f32,
        1 => *g.pick(&[297.0f32, 40.5]),
        _ => g.int(1, 12) as f32,
    };
    // numbers of quarter inches that make exactly 24 px each in single precision
    let (w_mm, h_mm) = if exact { (6.35 * *g.pick(&[5.0f32, 4., 8., 10., 11., 16., 20.]), 6.35 * *g.pick(&[5.0f32, 4., 8., 10., 11., 16.])) } else { (w_mm, h_mm) };
    let wide = long && g.chance(60);
    let w_mm = if wide { g.int(200, 2_000) as f32 } else { w_mm };
    let h_mm = if long && g.chance(40) { g.int(200, 5_000) as f32 } else { h_mm };
    let m_max = w_mm.min(h_mm) * 0.45;
    let m_mm = g.pick(&[0.0f32, 2., 5.5, 1., 20.]).min(m_max);
    let m_mm = if exact { *g.pick(&[0.0f32, 6.35]) } else { m_mm };
    let fs = *g.pick(&[16.0f32, 10., 12.5, 24., 7.3]);
    let lh = *g.pick(&[1.5f32, 1., 1.2, 0.8, 3.]);
    let fs = if wide { *g.pick(&[1.0f32, 2., 5.]) } else { fs };
    let (fs, lh) = if exact { (*g.pick(&[16.0f32, 8., 24.]), *g.pick(&[1.5f32, 1., 2., 0.75])) } else { (fs, lh) };
    let justify = g.chance(50);
    let style = Style {
        page_size: Size::new(w_mm, h_mm),
        page_margin: Length::new(m_mm),
        font: fnt,
        font_size: Length::new(fs),
        line_height: lh,
        justify,
    };
    cx.desc(format!(
        "{:?} page {}x{}mm margin {} fs {} lh {} justify {} font {}",
        text, w_mm, h_mm, m_mm, fs, lh, justify, if vera { "vera".to_owned() } else { format!("{:?}", rf.as_ref().unwrap().ps_name) }
    ));
    // ---- model
    let (pw, ph, m) = (px(w_mm as f64), px(h_mm as f64), px(m_mm as f64));
    let avail = pw - 2. * m;
    let max_y = ph - m;
    let fsz = fs as f64;
    let line_h = lh as f64 * fsz;
    let base = ((lh as f64 - 1.) / 2. + asc) * fsz;
    let tie = if exact { 0. } else { 2e-4 * (1. + avail.abs() + fsz) };
    let mut fits = 0;
    let mut segs: Vec<(Vec<u16>, f64, bool)> = vec![];
    let mut prev = 0;
    for (pos, hard) in LineBreakIterator::new(&text) {
        let t = text[prev..pos].trim_end_matches('\n');
        prev = pos;
        let gl: Vec<u16> = t.chars().map(glyph).collect();
        let a: f64 = gl.iter().map(|g| adv(*g)).sum::<f64>() * fsz;
        segs.push((gl, a, hard));
    }
    let total_chars: usize = segs.iter().map(|s| s.0.len()).sum();
    let mut lines: Vec<(Vec<(Vec<u16>, f64)>, f64, bool)> = vec![]; // runs, total, justified
    let mut near = false;
    let mut cur: Vec<(Vec<u16>, f64)> = vec![];
    let mut total = 0.;
    let mut it = segs.into_iter().peekable();
    let mut wrapped = 0;
    while let Some((gl, a, hard)) = it.peek().cloned() {
        let next = total + a;
        if total > 0. && (next - avail).abs() < tie {
            near = true;
        }
        if total > 0. && next == avail {
            fits += 1
        }
        if next > avail && total > 0. {
            lines.push((std::mem::take(&mut cur), total, justify));
            total = 0.;
            wrapped += 1;
            continue;
        }
        it.next();
        cur.push((gl, a));
        total = next;
        if hard {
            lines.push((std::mem::take(&mut cur), total, false));
            total = 0.;
        }
    }
    // the last break of the text is always reported as hard by UAX #14 (LB3)
    if !cur.is_empty() {
        // text after the last reported break: drawn nowhere else, so it must be a line
        lines.push((cur, total, false));
    }
    let mut pages: Vec<Vec<Run>> = vec![vec![]];
    let mut y = m;
    let nlines = lines.len();
    for (li, (runs, total, just)) in lines.into_iter().enumerate() {
        let extra = avail - total;
        if just && runs.len() > 1 && extra.abs() < tie {
            // sub-tie spacing either way
        }
        let ws = if just && extra > 0. && runs.len() > 1 { extra / (runs.len() - 1) as f64 } else { 0. };
        let mut x = m;
        for (gl, a) in runs {
            pages.last_mut().unwrap().push(Run { glyphs: gl, x, y: y + base });
            x += a + ws;
        }
        y += line_h;
        if exact {
            fits += (y == max_y) as u64
        } else if (y - max_y).abs() < 1e-3 * (1. + ph) {
            near = true;
        }
        if y > max_y && li + 1 < nlines {
            pages.push(vec![]);
            y = m;
        }
    }
    if near {
        cx.discarded = true;
        return Ok(());
    }
    cx.nontrivial = if exact {
        fits > 0
    } else if long {
        total_chars > 1_000
    } else { nlines >= 2 && total_chars > 3 };
    cx.count("exact fit", fits);
    if wrapped > 0 {
        cx.label("wrapped lines");
        if justify {
            cx.label("justified");
        }
    }
    if pages.len() > 1 {
        cx.label("several pages");
    }
    // ---- implementation
    let doc = layout(&text, &style).map_err(|e| Fail { sig: "layout-error".into(), msg: format!("{:?}", e) })?;
    let bytes = doc.write_to_pdf_bytes();
    let pdf = parse_pdf(&bytes)?;
    let got = pages_of(&pdf)?;
    // ---- compare
    let tolx = 1e-3 * (1. + avail.abs()) + 1e-4 * fsz;
    let toly = 1e-3 * (1. + ph);
    let show = |ps: &[Vec<Run>]| format!("{:?}", ps);
    ensure!(
        got.len() == pages.len(),
        "page-count",
        "expected {} pages, got {}; expected {}",
        pages.len(), got.len(), show(&pages)
    );
    for (pi, (p, q)) in pages.iter().zip(&got).enumerate() {
        ensure!(close(q.width, pw, 1e-5, 0.) && close(q.height, ph, 1e-5, 0.), "page-size", "page {}: {}x{}", pi, q.width, q.height);
        // flatten to glyph positions, so that how a line is cut into runs does not matter
        let mut want: Vec<(u16, f64, f64)> = vec![];
        for r in p {
            let mut x = r.x;
            for gl in &r.glyphs {
                want.push((*gl, x, r.y));
                x += adv(*gl) * fsz;
            }
        }
        let mut have: Vec<(u16, f64, f64)> = vec![];
        for i in &q.items {
            match i {
                Item::Text { glyphs, x, y, size, rgb, alpha, .. } => {
                    ensure!(close(*size, fsz, 1e-5, 0.), "font-size", "size {}", size);
                    ensure!(*rgb == [0., 0., 0.] && *alpha == 1., "text-color", "text is not opaque black");
                    let mut x = *x;
                    for gl in glyphs {
                        have.push((*gl, x, *y));
                        x += adv(*gl) * fsz;
                    }
                }
                i => return fail("not-text", show_item(i)),
            }
        }
        let gw: Vec<u16> = want.iter().map(|w| w.0).collect();
        let gh: Vec<u16> = have.iter().map(|w| w.0).collect();
        ensure!(gw == gh, "text-content", "page {}: expected glyphs {:?}, got {:?}", pi, gw, gh);
        for (a, b) in want.iter().zip(&have) {
            ensure!(
                (a.1 - b.1).abs() <= tolx && (a.2 - b.2).abs() <= toly,
                "text-position",
                "page {}: glyph {} expected at {:.3},{:.3}, is at {:.3},{:.3}",
                pi, a.0, a.1, a.2, b.1, b.2
            );
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "random texts (words, spaces, hard breaks, exotic breaking characters) and styles (page sizes, margins, font sizes, line heights, justification, Vera or a generated font) against a greedy reference layout; cases where a break decision is within rounding distance are discarded and counted; non-trivial = at least two lines; in `exact`, lengths have no rounding errors, and a case is non-trivial if a line or a page is exactly full",
        assumptions: &["line break opportunities come from the same Unicode library (xi-unicode)", "positive page sizes, font sizes and line heights; margins below half of the page size (larger ones are refused by an assertion)"],
        parts: vec![part("layouts", 90_000, 800_000, c08), part("exact", 70_000, 600_000, c08_exact), part("long", 4_000, 60_000, c08_long)],
    }
}
