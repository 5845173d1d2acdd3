use crate::engine::*;
use crate::pdfp::{self, Item, PageOut};

/// relative + absolute closeness
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn parse_pdf(bytes: &[u8]) -> Result<pdfp::Pdf, Fail> {
    pdfp::parse(bytes).map_err(|e| Fail { sig: "malformed-pdf".into(), msg: format!("not a well-formed PDF: {}", e) })
}
pub fn pages_of(pdf: &pdfp::Pdf) -> Result<Vec<PageOut>, Fail> {
    pdf.pages().map_err(|e| Fail { sig: "malformed-pdf-page".into(), msg: format!("not a well-formed PDF page: {}", e) })
}

pub fn html_page(html: &[u8]) -> Result<PageOut, Fail> {
    one_page(&victor::dom::Document::parse_html(html).to_pdf_bytes())
}

pub fn one_page(bytes: &[u8]) -> Result<PageOut, Fail> {
    let pdf = parse_pdf(bytes)?;
    let mut p = pages_of(&pdf)?;
    ensure!(p.len() == 1, "page-count", "{} pages", p.len());
    Ok(p.pop().unwrap())
}

pub fn show_item(i: &Item) -> String {
    match i {
        Item::Rect { x, y, w, h, rgb, alpha } => {
            format!("rect {:.3},{:.3} {:.3}x{:.3} rgb{:?} a{:.3}", x, y, w, h, rgb, alpha)
        }
        Item::Text { glyphs, x, y, size, rgb, .. } => {
            format!("text {:?} at {:.3},{:.3} size {:.3} rgb{:?}", glyphs, x, y, size, rgb)
        }
    }
}

pub fn text_chars(g: &mut G, max: usize) -> String {
    let pool: &[char] = &[
        'a', 'b', 'i', 'm', 'W', 'x', ' ', '.', '1', 'é', 'Ê', '\u{a0}', '→', '€', 'ﬁ', '漢', '\u{1F600}', '\u{10041}', '\u{0}', '\u{FFFF}',
    ];
    g.list(0, 6, max, |g| *g.pick(pool)).into_iter().collect()
}
