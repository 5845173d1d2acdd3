//! Documents for layout, and the comparison of rendered pages with the model.
use super::common::*;
use super::decls::*;
use crate::engine::*;
use crate::models::css::*;
use crate::models::dom::{self, El, Node};
use crate::models::font::VERA;
use crate::models::layout::{self, Doc, Out, Stats};
use crate::pdfp::Item;
use std::collections::HashMap;

/// What to generate: percentages, unless noted
#[derive(Clone)]
pub struct Knobs {
    pub max_elements: usize,
    pub max_depth: usize,
    pub avg_children: usize,
    /// weights: text, block, inline, flow-root, contents, none, absolute, comment
    pub kinds: [u64; 8],
    pub width: u64,
    pub height: u64,
    /// margin, padding and border in the inline axis of blocks
    pub inline_axis: u64,
    /// the same in the block axis
    pub block_axis: u64,
    /// margins, paddings, borders of inline boxes
    pub inline_boxes: u64,
    pub auto: u64,
    pub pct: u64,
    pub em: u64,
    pub negative: u64,
    pub relative: u64,
    pub font_size: u64,
    pub background: u64,
    /// of documents that have floats (empty ones)
    pub floats: u64,
    pub alpha: bool,
    pub root_styles: u64,
    /// words per text node
    pub words: usize,
    /// white space other than single spaces
    pub spaces: u64,
    /// small widths, for line breaks
    pub narrow: bool,
    /// paint order matters
    pub ordered: bool,
    /// many copies of some elements, next to or inside of each other; sizes that single precision adds up exactly
    pub crowd: bool,
}

pub const BASE: Knobs = Knobs {
    max_elements: 40,
    max_depth: 6,
    avg_children: 3,
    kinds: [30, 40, 15, 4, 3, 2, 5, 2],
    width: 30,
    height: 20,
    inline_axis: 15,
    block_axis: 15,
    inline_boxes: 20,
    auto: 20,
    pct: 20,
    em: 10,
    negative: 10,
    relative: 10,
    font_size: 10,
    background: 80,
    floats: 25,
    alpha: false,
    root_styles: 15,
    words: 3,
    spaces: 10,
    narrow: false,
    ordered: false,
    crowd: false,
};

pub struct PageGen<'g> {
    pub g: &'g mut G,
    pub k: Knobs,
    next_id: usize,
    left: usize,
    in_relative_inline: bool,
    /// inside of an inline box with margins, borders or padding
    in_edges: bool,
    in_line: bool,
    made: usize,
    floats: bool,
    pub attrs: HashMap<usize, Vec<Decl>>,
}

const BLOCK_TAGS: &[&str] = &["div", "div", "div", "main", "blockquote", "header", "figure", "center", "x-block", "section"];
const INLINE_TAGS: &[&str] = &["span", "span", "em", "b", "i", "cite", "label", "x-foo", "article", "section"];
const WORDS: &[&str] = &["a", "in", "the", "word", "Wim", "longer", "iiii", "x-y", "é", "extraordinary", "1.5", "a\u{a0}b", "漢", "\u{a0}", "\u{a0}x", "e\u{2003}", "\u{3000}w", "‰‰‰‰‰‰‰", "—™—", "😀", "x𝒳"];

impl<'g> PageGen<'g> {
    fn new_el(&mut self, name: &str) -> El {
        let mut e = El::new(name);
        e.id = self.next_id;
        self.next_id += 1;
        e
    }
    /// non-negative
    fn size(&mut self, big: bool) -> Sv {
        let g = &mut *self.g;
        if self.k.crowd {
            if g.chance(self.k.pct) {
                return Sv::Pct(*g.pick(&[50., 100., 25., 75., 12.5, 0.]));
            }
            if g.chance(self.k.em) {
                return Sv::Em(*g.pick(&[1., 0.5, 2., 0.25]));
            }
            return Sv::Px(match (big, self.k.narrow) {
                (true, true) => *g.pick(&[100., 50., 80., 150., 200., 33.5, 120., 10., 0., 400.]),
                (true, false) => *g.pick(&[100., 50., 20., 200., 33.5, 300., 10., 0., 700., 3.]),
                (false, _) => *g.pick(&[5., 1., 10., 2.5, 0.25, 0., 3.125, 20.]),
            });
        }
        if g.chance(self.k.pct) {
            return Sv::Pct(*g.pick(&[50., 100., 25., 10., 75., 12.5, 0., 130., 33.33, 7.1]));
        }
        if g.chance(self.k.em) {
            return Sv::Em(*g.pick(&[1., 0.5, 2., 1.25, 5., 1.01, 0.37]));
        }
        Sv::Px(if big {
            if self.k.narrow {
                *g.pick(&[100., 50., 80., 150., 200., 33.5, 120., 10., 0., 400., 91.7, 140.33])
            } else {
                *g.pick(&[100., 50., 20., 200., 33.5, 300., 10., 0., 700., 1000., 123.45, 60.1])
            }
        } else {
            *g.pick(&[5., 1., 10., 2.5, 20., 0., 33.25, 60., 3.14, 7.77])
        })
    }
    fn small(&mut self) -> Sv {
        self.size(false)
    }
    fn signed(&mut self) -> Sv {
        let v = self.size(false);
        if self.g.chance(self.k.negative) {
            match v {
                Sv::Px(x) => Sv::Px(-x),
                Sv::Em(x) => Sv::Em(-x),
                Sv::Pct(x) => Sv::Pct(-x / 4.),
                v => v,
            }
        } else {
            v
        }
    }
    fn px_em(&mut self) -> Sv {
        loop {
            match self.size(false) {
                Sv::Pct(_) => continue,
                v => return v,
            }
        }
    }
    fn side(&mut self, i: usize, out: &mut Vec<(Lh, Sv)>, block: bool) {
        match self.g.upto(2) {
            0 => {
                let v = if block && self.g.chance(self.k.auto) { Sv::Auto } else { self.signed() };
                out.push((Lh::Margin(i), v))
            }
            1 => {
                let v = self.small();
                out.push((Lh::Padding(i), v))
            }
            _ => {
                let v = self.px_em();
                out.push((Lh::BWidth(i), v));
                if self.g.chance(85) {
                    out.push((Lh::BStyle(i), Sv::Line(Line::Solid)))
                }
            }
        }
    }
    fn offsets(&mut self, out: &mut Vec<(Lh, Sv)>, pct: u64) {
        for i in 0..4 {
            if self.g.chance(pct) {
                let v = self.signed();
                out.push((Lh::Off(i), v))
            }
        }
    }
    fn background(&mut self, out: &mut Vec<(Lh, Sv)>) {
        if self.g.chance(self.k.background) {
            let c = if self.k.alpha && self.g.chance(15) {
                Sv::Current
            } else if self.k.alpha && self.g.chance(5) {
                *self.g.pick(&[Sv::Wide(Wide::Inherit), Sv::Rgba([9, 9, 9, 0]), Sv::Wide(Wide::Unset)])
            } else {
                let mut c = color(self.g);
                if !self.k.alpha {
                    c[3] = 255
                }
                Sv::Rgba(c)
            };
            out.push((Lh::Bg, c))
        }
        if self.g.chance(if self.k.alpha { 25 } else { 5 }) {
            let mut c = color(self.g);
            if !self.k.alpha {
                c[3] = 255
            }
            out.push((Lh::Color, Sv::Rgba(c)))
        }
        if self.g.chance(self.k.font_size) {
            let v = if self.k.crowd {
                *self.g.pick(&[Sv::Px(20.), Sv::Px(10.), Sv::Px(40.), Sv::Px(5.)])
            } else { *self.g.pick(&[Sv::Px(20.), Sv::Px(10.), Sv::Em(0.75), Sv::Em(1.5), Sv::Px(33.5), Sv::Px(13.3), Sv::Em(0.9)]) };
            out.push((Lh::FontSize, v))
        }
    }
    fn set_style(&mut self, e: &mut El, sets: Vec<(Lh, Sv)>) {
        if sets.is_empty() {
            return;
        }
        let g = &mut *self.g;
        let ds: Vec<Decl> = sets.into_iter().map(|(lh, v)| decl(lh, v, false, g, false)).collect();
        e.attrs.push(("style".into(), block_text(&ds, g, false)));
        self.attrs.insert(e.id, ds);
    }
    fn text(&mut self) -> Node {
        let k = self.k.clone();
        let g = &mut *self.g;
        let mut t = String::new();
        let sep = |g: &mut G, t: &mut String| {
            t.push_str(if g.chance(k.spaces) { *g.pick(&["  ", "\n", "\t", " \n  ", "\n\n"]) } else { " " })
        };
        if g.chance(30) {
            sep(g, &mut t)
        }
        let avg = k.words;
        let ws = g.list(0, avg, 30, |g| *g.pick(WORDS));
        for (i, w) in ws.iter().enumerate() {
            t.push_str(w);
            if i + 1 < ws.len() || g.chance(30) {
                sep(g, &mut t)
            }
        }
        Node::Text(t)
    }
    fn element(&mut self, depth: usize) -> Option<Node> {
        let kind = self.g.weighted(&self.k.kinds);
        self.made = kind;
        if kind == 0 {
            return Some(self.text());
        }
        if kind == 7 {
            return Some(Node::Comment(" c ".into()));
        }
        if self.left == 0 || (kind == 6 && self.in_relative_inline) {
            return None;
        }
        self.left -= 1;
        if self.floats && self.g.chance(15) {
            return Some(self.float());
        }
        let mut sets = vec![];
        let mut relative_inline = false;
        let mut edges = false;
        let block = matches!(kind, 1 | 3 | 6);
        let name = if block { *self.g.pick(BLOCK_TAGS) } else { *self.g.pick(INLINE_TAGS) };
        let default_block = !matches!(name, "x-block" | "section" | "article");
        let mut e = self.new_el(name);
        let want = match kind {
            1 => Disp::Block,
            2 => Disp::Inline,
            3 => Disp::FlowRoot,
            4 => Disp::Contents,
            5 => Disp::None,
            _ => {
                sets.push((Lh::Position, Sv::Pos(Pos::Absolute)));
                if self.in_line && self.g.chance(85) {
                    Disp::Inline
                } else {
                    *self.g.pick(&[Disp::Block, Disp::Block, Disp::FlowRoot, Disp::Inline])
                }
            }
        };
        let have = if block && default_block { Disp::Block } else { Disp::Inline };
        if want == Disp::None && self.g.chance(30) {
            e.attrs.push(("hidden".into(), String::new()))
        } else if want != have {
            sets.push((Lh::Display, Sv::Disp(want)))
        }
        self.background(&mut sets);
        if block {
            if self.g.chance(self.k.width) {
                let v = self.size(true);
                sets.push((Lh::Width, v))
            }
            if self.g.chance(self.k.height) {
                let v = self.size(true);
                sets.push((Lh::Height, v))
            }
            for i in 0..4 {
                let pct = if i % 2 == 0 { self.k.block_axis } else { self.k.inline_axis };
                let pct = if kind == 6 { pct / 2 } else { pct };
                while self.g.chance(pct) {
                    self.side(i, &mut sets, true);
                    if !self.g.chance(30) {
                        break;
                    }
                }
            }
        } else if kind == 2 {
            for i in 0..4 {
                if self.g.chance(self.k.inline_boxes) {
                    self.side(i, &mut sets, false);
                    edges = true
                }
            }
        }
        if kind == 6 {
            for axis in 0..2 {
                if self.g.chance(35) {
                    // Everything specified, but possibly the margins
                    let (a, b) = (axis, axis + 2);
                    sets.retain(|s| s.0 != if axis == 0 { Lh::Height } else { Lh::Width });
                    for lh in [Lh::Off(a), Lh::Off(b), if axis == 0 { Lh::Height } else { Lh::Width }] {
                        let v = self.signed();
                        let v = match (lh, v) {
                            (Lh::Off(_), v) => v,
                            (_, Sv::Px(x)) => Sv::Px(x.abs()),
                            (_, Sv::Em(x)) => Sv::Em(x.abs()),
                            (_, Sv::Pct(x)) => Sv::Pct(x.abs()),
                            (_, v) => v,
                        };
                        sets.push((lh, v))
                    }
                    for i in [a, b] {
                        let v = match self.g.upto(3) {
                            0 | 1 => Sv::Auto,
                            2 => Sv::Px(0.),
                            _ => self.signed(),
                        };
                        sets.retain(|s| s.0 != Lh::Margin(i));
                        sets.push((Lh::Margin(i), v))
                    }
                } else {
                    for i in [axis, axis + 2] {
                        if self.g.chance(45) {
                            let v = self.signed();
                            sets.push((Lh::Off(i), v))
                        }
                    }
                }
            }
        } else if matches!(kind, 1 | 2 | 3) && self.g.chance(self.k.relative) {
            sets.push((Lh::Position, Sv::Pos(Pos::Relative)));
            self.offsets(&mut sets, 35);
            relative_inline |= kind == 2
        }
        if self.floats {
            // not a float: `none` is the initial value, and absolute positioning wins
            if kind == 6 && self.g.chance(20) {
                sets.push((Lh::Float, Sv::Fl(*self.g.pick(&[Fl::Left, Fl::Right, Fl::None]))))
            } else if self.g.chance(10) {
                sets.push((Lh::Float, *self.g.pick(&[Sv::Fl(Fl::None), Sv::Wide(Wide::Initial), Sv::Wide(Wide::Unset)])))
            }
        }
        self.set_style(&mut e, sets);
        if depth < self.k.max_depth {
            let saved = self.in_relative_inline;
            let saved_edges = self.in_edges;
            let saved_line = self.in_line;
            self.in_line = kind == 2 || (saved_line && kind == 4);
            self.in_edges = (saved_edges && !matches!(kind, 1 | 3 | 6)) || edges;
            // A block in an inline box may itself be anywhere: keep it simple
            self.in_relative_inline = (saved && !matches!(kind, 1 | 3 | 6)) || relative_inline;
            e.children = self.children(depth + 1);
            self.in_relative_inline = saved;
            self.in_line = saved_line;
            self.in_edges = saved_edges;
            self.made = kind
        }
        Some(Node::El(e))
    }
    /// Without contents or size, a float changes nothing else
    fn float(&mut self) -> Node {
        self.made = 7;
        let block = self.g.chance(40);
        let name = if block { *self.g.pick(BLOCK_TAGS) } else { *self.g.pick(INLINE_TAGS) };
        let mut e = self.new_el(name);
        let mut sets = vec![(Lh::Float, Sv::Fl(*self.g.pick(&[Fl::Left, Fl::Right])))];
        if self.g.chance(20) {
            sets.push((Lh::Display, Sv::Disp(*self.g.pick(&[Disp::Block, Disp::Inline, Disp::FlowRoot]))))
        }
        if self.g.chance(20) {
            sets.push((Lh::Position, Sv::Pos(Pos::Relative)));
            self.offsets(&mut sets, 30)
        }
        if self.g.chance(20) {
            let v = Sv::Rgba([255, 0, 0, 255]);
            sets.push((Lh::Bg, v))
        }
        self.set_style(&mut e, sets);
        Node::El(e)
    }
    fn children(&mut self, depth: usize) -> Vec<Node> {
        let mut out: Vec<Node> = vec![];
        let in_line = self.in_line;
        let avg = if depth == 0 { self.k.avg_children + 4 } else { self.k.avg_children - 1 };
        let stop = 100 / (1 + avg as u64);
        loop {
            let g: &mut G = self.g;
            let s = g.rec.len();
            if out.len() > 12 || g.upto(99) < stop {
                // (a zero choice stops)
                break;
            }
            let n = self.element(depth);
            let kind = self.made;
            if matches!(kind, 1 | 3) {
                self.in_line = in_line
            } else if matches!(kind, 0 | 2 | 4) {
                self.in_line = true
            }
            let e = self.g.rec.len();
            // Avoid parts of inline boxes without any text, before or after a block
            let around = n.is_some() && matches!(kind, 1 | 3) && self.in_edges;
            if around {
                match out.last_mut() {
                    Some(Node::Text(u)) => u.push('b'),
                    _ => out.push(Node::Text("b".into())),
                }
            }
            self.g.spans.push((s, e));
            match n {
                // Adjacent text nodes would be parsed as one
                Some(Node::Text(t)) => match out.last_mut() {
                    Some(Node::Text(u)) => u.push_str(&t),
                    _ => out.push(Node::Text(t)),
                },
                Some(n) => out.push(n),
                None => {}
            }
            if around {
                out.push(Node::Text("d".into()))
            }
        }
        self.in_line = in_line;
        // An empty text node is not in the parsed document
        out.retain(|n| if let Node::Text(t) = n { !t.is_empty() } else { true });
        out
    }
    /// With new ids
    fn copy(&mut self, n: &Node) -> Node {
        match n {
            Node::El(e) => {
                let mut c = e.clone();
                c.id = self.next_id;
                self.next_id += 1;
                if let Some(ds) = self.attrs.get(&e.id).cloned() {
                    self.attrs.insert(c.id, ds);
                }
                c.children = e.children.iter().map(|n| self.copy(n)).collect();
                Node::El(c)
            }
            n => n.clone(),
        }
    }
    fn enlarge(&mut self, body: &mut El) {
        let nested = self.g.chance(25);
        let kinds = self.k.kinds;
        if nested {
            self.k.kinds = [0, 6, 0, 1, 0, 0, 0, 0]
        } else {
            self.k.kinds[0] = 0
        }
        let mut templates = vec![];
        for _ in 0..self.g.us(1, 3) {
            self.left = self.left.max(3);
            if let Some(Node::El(mut e)) = self.element(self.k.max_depth - 1) {
                if nested {
                    e.children.retain(|n| !matches!(n, Node::Text(_)))
                } else if self.in_line && self.g.chance(50) && e.children.is_empty() {
                    e.children.push(Node::Text("w ".into()))
                }
                templates.push(Node::El(e))
            }
        }
        self.k.kinds = kinds;
        if templates.is_empty() {
            return;
        }
        let n = match self.g.weighted(&[3, 2, 1]) {
            0 => self.g.us(10, 80),
            1 => self.g.us(60, 300),
            _ => self.g.us(250, 700),
        };
        let at = self.g.us(0, body.children.len());
        if nested {
            let n = n / 2;
            let mut inner = body.children.split_off(at);
            // Inside of a block, white space at the start and end does not matter as it does next to text
            for i in 0..n {
                let mut e = match self.copy(&templates[i % templates.len()]) {
                    Node::El(e) => e,
                    _ => unreachable!(),
                };
                e.children.append(&mut inner);
                inner = vec![Node::El(e)]
            }
            body.children.append(&mut inner)
        } else {
            let copies: Vec<Node> = (0..n).map(|i| self.copy(&templates[i % templates.len()])).collect();
            if self.g.chance(30) {
                let mut e = self.new_el("div");
                let mut sets = vec![];
                self.background(&mut sets);
                self.set_style(&mut e, sets);
                e.children = copies;
                body.children.insert(at, Node::El(e))
            } else {
                body.children.splice(at..at, copies);
            }
        }
    }
    pub fn doc(g: &'g mut G, k: &Knobs) -> Doc {
        let mut p = PageGen { g, k: k.clone(), next_id: 1, left: k.max_elements, in_relative_inline: false, in_edges: false, in_line: false, made: 0, floats: false, attrs: HashMap::new() };
        p.floats = p.g.chance(k.floats);
        let mut root = p.new_el("html");
        let head = p.new_el("head");
        let mut body = p.new_el("body");
        for (e, is_body) in [(&mut root, false), (&mut body, true)] {
            let mut sets = vec![];
            if p.g.chance(k.root_styles) {
                p.background(&mut sets);
                for i in 0..4 {
                    if p.g.chance(15) {
                        p.side(i, &mut sets, true)
                    }
                }
                if p.g.chance(20) {
                    let v = p.size(true);
                    sets.push((Lh::Width, v))
                }
                if p.g.chance(20) {
                    let v = p.size(true);
                    sets.push((Lh::Height, v))
                }
                if p.g.chance(15) {
                    sets.push((Lh::Position, Sv::Pos(*p.g.pick(&[Pos::Relative, Pos::Absolute]))));
                    p.offsets(&mut sets, 30)
                }
                if p.g.chance(10) {
                    sets.push((Lh::Display, Sv::Disp(*p.g.pick(&[Disp::FlowRoot, Disp::Inline, Disp::Contents]))))
                }
                // Lines are 1.2 times as high: as long as that is exact, so are sums of it
                sets.retain(|s| !k.crowd || s.0 != Lh::FontSize);
            } else if is_body && p.g.chance(50) {
                for i in 0..4 {
                    sets.push((Lh::Margin(i), Sv::Px(0.)))
                }
            }
            if k.crowd && !is_body {
                sets.push((Lh::FontSize, Sv::Px(20.)))
            }
            p.set_style(e, sets)
        }
        body.children = p.children(0);
        if k.crowd {
            p.enlarge(&mut body)
        }
        root.children = vec![Node::El(head), Node::El(body)];
        Doc { root, rules: vec![], attrs: p.attrs }
    }
}

pub fn html_text(doc: &Doc) -> String {
    let mut s = String::from("<!doctype html>");
    dom::html(&doc.root, &mut s);
    s
}

// ---------------------------------------------------------------- comparison

pub fn flatten(items: &[Item]) -> Vec<Out> {
    let mut out = vec![];
    let c = |rgb: &[f64; 3], a: f64| {
        let u = |x: f64| (x * 255.).round().max(0.).min(255.) as u8;
        [u(rgb[0]), u(rgb[1]), u(rgb[2]), u(a)]
    };
    for i in items {
        match i {
            Item::Rect { x, y, w, h, rgb, alpha } => {
                out.push(Out::Rect { x: *x, y: *y, w: *w, h: *h, rgba: c(rgb, *alpha) })
            }
            Item::Text { glyphs, x, y, size, rgb, alpha, .. } => {
                let mut x = *x;
                for g in glyphs {
                    out.push(Out::Glyph { gid: *g, x, y: *y, size: *size, rgba: c(rgb, *alpha) });
                    x += VERA.advances.get(*g as usize).cloned().unwrap_or(0.) * size
                }
            }
        }
    }
    out
}

fn tiny(o: &Out) -> bool {
    match o {
        Out::Rect { w, h, .. } => w.abs() < 0.06 || h.abs() < 0.06,
        Out::Glyph { gid, .. } => *gid == VERA.glyph(' '),
    }
}
/// Positions are sums of single precision numbers: the largest one of the document decides what they are worth
fn tolerance(o: &[Out]) -> f64 {
    let largest = o.iter().fold(600f64, |m, o| match o {
        Out::Rect { x, y, w, h, .. } => m.max(x.abs()).max(y.abs()).max((x + w).abs()).max((y + h).abs()),
        Out::Glyph { x, y, size, .. } => m.max(x.abs()).max(y.abs()).max(size.abs()),
    });
    // Far away, every box before may have made it worse
    let boxes = o.iter().filter(|o| matches!(o, Out::Rect { .. })).count();
    let many = if largest > 20_000. { 1. + boxes as f64 / 20. } else { 1. };
    0.001 + 3e-6 * largest * many
}
fn same(a: &Out, b: &Out, tolerance: f64) -> bool {
    let near = |a: f64, b: f64| close(a, b, 0., tolerance);
    match (a, b) {
        (Out::Rect { x, y, w, h, rgba }, Out::Rect { x: x2, y: y2, w: w2, h: h2, rgba: r2 }) => {
            // A size does not get worse with the distance of the box
            let size = |a: f64, b: f64| close(a, b, 0., tolerance.min(0.003 + a.abs().max(b.abs()) * tolerance / 600.));
            near(*x, *x2) && near(*y, *y2) && size(*w, *w2) && size(*h, *h2) && rgba == r2
        }
        (
            Out::Glyph { gid, x, y, size, rgba },
            Out::Glyph { gid: g2, x: x2, y: y2, size: s2, rgba: r2 },
        ) => gid == g2 && near(*x, *x2) && near(*y, *y2) && near(*size, *s2) && rgba == r2,
        _ => false,
    }
}

pub fn show(o: &[Out]) -> String {
    let mut s = String::new();
    for o in o.iter().filter(|o| !tiny(o)).take(if std::env::var("VH_FULL").is_ok() { 1000_000 } else { 60 }) {
        match o {
            Out::Rect { x, y, w, h, rgba } => {
                s.push_str(&format!("  rect {:.3},{:.3} {:.3}x{:.3} {:?}\n", x, y, w, h, rgba))
            }
            Out::Glyph { gid, x, y, size, rgba } => {
                s.push_str(&format!("  glyph {} at {:.3},{:.3} size {:.3} {:?}\n", gid, x, y, size, rgba))
            }
        }
    }
    s
}

/// kind of the first difference
pub fn compare(expected: &[Out], actual: &[Out], ordered: bool) -> Result<(), (&'static str, String)> {
    // What is hardly visible may be missing on either side
    let t = tolerance(expected);
    let (a, b) = (expected, actual);
    let (mut i, mut j) = (0, 0);
    let in_order = loop {
        match (a.get(i), b.get(j)) {
            (Some(x), Some(y)) if same(x, y, t) => {
                i += 1;
                j += 1
            }
            (_, Some(y)) if tiny(y) => j += 1,
            (Some(x), _) if tiny(x) => i += 1,
            (None, None) => break true,
            _ => break false,
        }
    };
    if in_order {
        return Ok(());
    }
    // as sets
    let mut used: Vec<bool> = b.iter().map(tiny).collect();
    let mut missing = None;
    let mut from = 0;
    for x in a.iter().filter(|o| !tiny(o)) {
        let fits = |i: &usize| same(x, &b[*i], t);
        let found = (from..b.len()).chain(0..from).find(|i| !used[*i] && fits(i));
        match found.or_else(|| (0..b.len()).find(|i| tiny(&b[*i]) && fits(i))) {
            Some(i) => {
                used[i] = true;
                from = i + 1
            }
            None => {
                missing = Some(x);
                break;
            }
        }
    }
    let extra = used.iter().position(|u| !u).filter(|i| !a.iter().any(|x| tiny(x) && same(x, &b[*i], t)));
    let kind = match (&missing, extra) {
        (None, None) => {
            if !ordered {
                return Ok(());
            }
            "order"
        }
        (Some(Out::Glyph { .. }), _) => "text",
        (None, Some(i)) if matches!(b[i], Out::Glyph { .. }) => "text",
        _ => "box",
    };
    let m = missing.map(|x| show(&[x.clone()])).unwrap_or_default();
    Err((kind, format!("expected (first one missing: {})\n{}actual\n{}", m.trim(), show(expected), show(actual))))
}

pub fn rendered(src: &[u8], xml: bool) -> Result<Vec<Out>, Fail> {
    if xml {
        let doc = match victor::dom::Document::parse_xml(src) {
            Ok(d) => d,
            Err(e) => return fail("xml-refused", format!("well-formed XML refused: {}", e)),
        };
        return Ok(flatten(&one_page(&doc.to_pdf_bytes())?.items));
    }
    Ok(flatten(&html_page(src)?.items))
}

/// Render a document and compare it with the model.
pub fn check_doc(doc: &Doc, html: &str, cx: &mut Cx, k: &Knobs) -> Result<Option<Stats>, Fail> {
    check_source(doc, html, false, cx, k.ordered)
}
pub fn check_source(doc: &Doc, src: &str, xml: bool, cx: &mut Cx, ordered: bool) -> Result<Option<Stats>, Fail> {
    check_with(doc, src, xml, cx, ordered, Stats::default())
}
pub fn check_with(doc: &Doc, src: &str, xml: bool, cx: &mut Cx, ordered: bool, mut st: Stats) -> Result<Option<Stats>, Fail> {
    cx.desc(src.to_owned());
    let expected = match layout::layout(doc, &mut st) {
        Ok(e) => e,
        Err(layout::Discard(why)) => {
            cx.discarded = true;
            cx.label(&format!("discard: {}", why));
            return Ok(None);
        }
    };
    let actual = rendered(src.as_bytes(), xml)?;
    if let Err((kind, msg)) = compare(&expected, &actual, ordered) {
        return fail(&format!("page-{}", kind), msg);
    }
    for (k, n) in &st.0 {
        cx.count(k, *n)
    }
    Ok(Some(st))
}
