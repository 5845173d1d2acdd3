//! Reference model of box generation, block and inline layout, positioning and painting
//! (CSS 2 chapters 8 to 10, restricted to what Victor implements), in 64-bit floats.
use super::css::{self, Decl, Disp, Lpa, Pos, Rule, Style};
use super::dom::{El, Node};
use super::font::VERA;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const PAGE: (f64, f64) = (600., 800.);

pub struct Doc {
    pub root: El,
    pub rules: Vec<Rule>,
    pub attrs: HashMap<usize, Vec<Decl>>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Rect { x: f64, y: f64, w: f64, h: f64, rgba: [u8; 4] },
    Glyph { gid: u16, x: f64, y: f64, size: f64, rgba: [u8; 4] },
}

/// This case is outside of what the model defines
#[derive(Debug)]
pub struct Discard(pub &'static str);
type R<T> = Result<T, Discard>;

/// What happened, and whether lengths are all multiples of a small power of two, so that there are no rounding errors
#[derive(Default)]
pub struct Stats(pub BTreeMap<&'static str, u64>, pub bool);
impl Stats {
    fn hit(&mut self, s: &'static str) {
        *self.0.entry(s).or_insert(0) += 1
    }
    pub fn get(&self, s: &'static str) -> u64 {
        self.0.get(s).cloned().unwrap_or(0)
    }
}

// ---------------------------------------------------------------- styles

pub type Styles = HashMap<usize, Rc<Style>>;

pub fn styles(doc: &Doc) -> Styles {
    fn go<'a>(doc: &'a Doc, el: &'a El, index: usize, path: &mut Vec<(&'a El, usize)>, parent: Option<&Style>, out: &mut Styles) {
        path.push((el, index));
        let s = css::computed(path, &doc.rules, doc.attrs.get(&el.id).map(|v| &v[..]), parent);
        for (i, c) in el.children.iter().enumerate() {
            if let Node::El(e) = c {
                go(doc, e, i, path, Some(&s), out)
            }
        }
        out.insert(el.id, s);
        path.pop();
    }
    let mut out = HashMap::new();
    go(doc, &doc.root, 0, &mut vec![], None, &mut out);
    out
}

// ---------------------------------------------------------------- boxes

enum Container<'a> {
    Blocks(Vec<BlockBox>, std::marker::PhantomData<&'a ()>),
    Inline(Vec<Inl>),
}
enum BlockBox {
    Flow { style: Rc<Style>, content: Box<Container<'static>>, independent: bool, anonymous: bool },
    Abs(Rc<AbsBox>),
}
struct AbsBox {
    style: Rc<Style>,
    content: Container<'static>,
}
enum Inl {
    Box { style: Rc<Style>, first: bool, last: bool, children: Vec<Inl> },
    Text { style: Rc<Style>, el: usize, text: String },
    Abs(Rc<AbsBox>),
    /// an empty float: nothing, but text on its two sides is not the same text run
    Float,
}

struct Builder<'a> {
    styles: &'a Styles,
    container: Rc<Style>,
    blocks: Vec<BlockBox>,
    root: Vec<Inl>,
    open: Vec<(Rc<Style>, bool, Vec<Inl>)>,
    /// whether the text so far in this inline formatting context ends with a space
    ends_with_space: Option<bool>,
}

impl<'a> Builder<'a> {
    fn current(&mut self) -> &mut Vec<Inl> {
        match self.open.last_mut() {
            Some(o) => &mut o.2,
            None => &mut self.root,
        }
    }
    fn children(&mut self, el: &El, style: &Rc<Style>, st: &mut Stats) -> R<()> {
        for c in &el.children {
            match c {
                Node::Comment(_) => {}
                Node::Text(t) => self.text(t, el.id, style),
                Node::El(e) => self.element(e, st)?,
            }
        }
        Ok(())
    }
    fn text(&mut self, t: &str, el: usize, style: &Rc<Style>) {
        let mut s = String::new();
        for c in t.chars() {
            if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') {
                if self.ends_with_space == Some(false) {
                    s.push(' ');
                    self.ends_with_space = Some(true)
                }
            } else {
                s.push(c);
                self.ends_with_space = Some(false)
            }
        }
        if s.is_empty() {
            return;
        }
        match self.current().last_mut() {
            Some(Inl::Text { el: e, text, .. }) if *e == el => text.push_str(&s),
            _ => self.current().push(Inl::Text { style: style.clone(), el, text: s }),
        }
    }
    fn element(&mut self, e: &El, st: &mut Stats) -> R<()> {
        let style = self.styles[&e.id].clone();
        match style.display {
            Disp::None => {
                st.hit("display none");
                Ok(())
            }
            Disp::Contents => {
                st.hit("display contents");
                self.children(e, &style, st)
            }
            Disp::Inline => {
                st.hit("inline box");
                self.open.push((style.clone(), true, vec![]));
                self.children(e, &style, st)?;
                let (_, first, children) = self.open.pop().unwrap();
                self.current().push(Inl::Box { style, first, last: true, children });
                Ok(())
            }
            Disp::Block | Disp::FlowRoot if style.position == Pos::Absolute => {
                let b = Rc::new(AbsBox { content: build(self.styles, e, &style, st)?, style });
                if self.root.is_empty() && self.open.is_empty() {
                    st.hit("abspos among blocks");
                    self.blocks.push(BlockBox::Abs(b))
                } else {
                    st.hit("abspos among inlines");
                    self.current().push(Inl::Abs(b))
                }
                Ok(())
            }
            Disp::Block | Disp::FlowRoot if style.float != css::Fl::None => {
                if !e.children.is_empty() || !zero_size(&style) {
                    return Err(Discard("float with a size"));
                }
                if self.root.is_empty() && self.open.is_empty() {
                    st.hit("float among blocks")
                } else {
                    st.hit("float among inlines");
                    self.current().push(Inl::Float)
                }
                Ok(())
            }
            Disp::Block | Disp::FlowRoot => {
                // Split open inline boxes around this block
                if !self.open.is_empty() {
                    st.hit("block in inline")
                }
                let mut inner: Option<Inl> = None;
                for o in self.open.iter_mut().rev() {
                    let mut children = std::mem::take(&mut o.2);
                    children.extend(inner.take());
                    inner = Some(Inl::Box { style: o.0.clone(), first: o.1, last: false, children });
                    o.1 = false
                }
                self.root.extend(inner);
                self.end_inline(st);
                let independent = style.display == Disp::FlowRoot;
                if independent {
                    st.hit("flow root")
                }
                let content = Box::new(build(self.styles, e, &style, st)?);
                self.blocks.push(BlockBox::Flow { style, content, independent, anonymous: false });
                Ok(())
            }
        }
    }
    fn end_inline(&mut self, st: &mut Stats) {
        self.ends_with_space = None;
        if self.root.is_empty() {
            return;
        }
        st.hit("anonymous block");
        let content = Box::new(Container::Inline(std::mem::take(&mut self.root)));
        let style = Rc::new(css::anonymous(&self.container));
        self.blocks.push(BlockBox::Flow { style, content, independent: false, anonymous: true })
    }
}

fn zero_size(s: &Style) -> bool {
    let z = |l: &Lpa| matches!(l, Lpa::Auto | Lpa::Px(0.) | Lpa::Pct(0.));
    z(&s.width) && z(&s.height) && s.margin.iter().chain(&s.padding).all(z) && s.bwidth.iter().all(|w| *w == 0.)
}

fn build(styles: &Styles, e: &El, style: &Rc<Style>, st: &mut Stats) -> R<Container<'static>> {
    let mut b = Builder {
        styles,
        container: style.clone(),
        blocks: vec![],
        root: vec![],
        open: vec![],
        ends_with_space: None,
    };
    b.children(e, style, st)?;
    if b.blocks.is_empty() && !b.root.is_empty() {
        return Ok(Container::Inline(b.root));
    }
    b.end_inline(st);
    Ok(Container::Blocks(b.blocks, std::marker::PhantomData))
}

// ---------------------------------------------------------------- used values

/// Sides are 0 = top, 1 = right, 2 = bottom, 3 = left
type Sides = [f64; 4];

fn lp(v: Lpa, base: f64) -> Option<f64> {
    match v {
        Lpa::Px(x) => Some(x),
        Lpa::Pct(p) => Some(base * p / 100.),
        Lpa::Auto => None,
    }
}
/// Percentages of percentages of … : in single precision, those end with zero
fn distinct_from_zero(v: f64) -> R<()> {
    if v != 0. && v.abs() < 1e-20 {
        return Err(Discard("smaller than single precision"));
    }
    Ok(())
}
fn padding(s: &Style, cbw: f64) -> R<Sides> {
    let mut r = [0.; 4];
    for i in 0..4 {
        r[i] = lp(s.padding[i], cbw).unwrap();
        if r[i] < 0. || s.bwidth[i] < 0. {
            return Err(Discard("negative padding or border"));
        }
        distinct_from_zero(r[i])?
    }
    Ok(r)
}
fn margin(s: &Style, cbw: f64) -> [Option<f64>; 4] {
    let mut r = [None; 4];
    for i in 0..4 {
        r[i] = lp(s.margin[i], cbw)
    }
    r
}
fn relative(s: &Style, cbw: f64, cbh: Option<f64>) -> (f64, f64) {
    if s.position != Pos::Relative {
        return (0., 0.);
    }
    let v = |l: Lpa| match l {
        Lpa::Px(x) => Some(x),
        Lpa::Pct(p) => cbh.map(|h| h * p / 100.),
        Lpa::Auto => None,
    };
    let dx = match (lp(s.off[3], cbw), lp(s.off[1], cbw)) {
        (Some(l), _) => l,
        (None, Some(r)) => -r,
        (None, None) => 0.,
    };
    let dy = match (v(s.off[0]), v(s.off[2])) {
        (Some(t), _) => t,
        (None, Some(b)) => -b,
        (None, None) => 0.,
    };
    (dx, dy)
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy)]
struct Cb {
    x: f64,
    w: f64,
    h: Option<f64>,
}

/// A box of which the border edge is at (x, y), before relative positioning
struct Frag {
    style: Rc<Style>,
    x: f64,
    y: Option<f64>,
    w: f64,
    h: f64,
    padding: Sides,
    rel: (f64, f64),
    kids: Vec<Kid>,
    /// absolutely positioned boxes of which this is the containing block
    abs: Vec<PendingAbs>,
    /// total displacement, known when painting
    shift: (f64, f64),
}
enum Kid {
    Frag(usize),
    Text { style: Rc<Style>, x: f64, y: f64, glyphs: Vec<u16> },
}
#[derive(Clone)]
struct PendingAbs {
    b: Rc<AbsBox>,
    /// static position: offset from the content box of this fragment
    of: usize,
    dx: f64,
    dy: f64,
}

#[derive(Default)]
struct Flow {
    y: f64,
    margins: Vec<f64>,
    deferred: Vec<usize>,
}
fn solve(m: &[f64]) -> f64 {
    let pos = m.iter().fold(0f64, |a, b| a.max(*b));
    let neg = m.iter().fold(0f64, |a, b| a.min(*b));
    pos + neg
}

pub struct Layout<'a> {
    frags: Vec<Frag>,
    pub out: Vec<Out>,
    pub st: &'a mut Stats,
}

impl<'a> Layout<'a> {
    fn flush(&mut self, f: &mut Flow) {
        f.y += solve(&f.margins);
        f.margins.clear();
        for d in f.deferred.drain(..) {
            self.frags[d].y = Some(f.y)
        }
    }
    fn new_frag(&mut self, style: &Rc<Style>, x: f64, padding: Sides) -> usize {
        self.frags.push(Frag {
            style: style.clone(),
            x,
            y: None,
            w: 0.,
            h: 0.,
            padding,
            rel: (0., 0.),
            kids: vec![],
            abs: vec![],
            shift: (0., 0.),
        });
        self.frags.len() - 1
    }

    /// In-flow contents of a fragment, in the block formatting context `f`.
    /// `cbf`: containing block for absolutely positioned descendants
    fn contents(&mut self, c: &Container, cb: Cb, pct_h: Option<f64>, parent: usize, cbf: usize, f: &mut Flow) -> R<()> {
        match c {
            Container::Blocks(bs, _) => {
                for b in bs {
                    match b {
                        BlockBox::Flow { style, content, independent, anonymous } => {
                            let k = self.block(style, content, *independent, *anonymous, cb, parent, cbf, f)?;
                            self.frags[parent].kids.push(Kid::Frag(k))
                        }
                        BlockBox::Abs(a) => {
                            let dy = match self.frags[parent].y {
                                None => 0.,
                                Some(y) => {
                                    let uses_static =
                                        a.style.off[0] == Lpa::Auto && a.style.off[2] == Lpa::Auto;
                                    if uses_static && solve(&f.margins).abs() > 1e-9 {
                                        // The hypothetical box's margins would collapse
                                        return Err(Discard("static position after a margin"));
                                    }
                                    let p = &self.frags[parent];
                                    f.y - y - p.padding[0] - p.style.bwidth[0]
                                }
                            };
                            self.frags[cbf].abs.push(PendingAbs { b: a.clone(), of: parent, dx: 0., dy })
                        }
                    }
                }
                Ok(())
            }
            Container::Inline(i) => self.inline(i, cb, pct_h, parent, cbf, f),
        }
    }

    fn block(
        &mut self,
        style: &Rc<Style>,
        content: &Container,
        independent: bool,
        anonymous: bool,
        cb: Cb,
        parent: usize,
        cbf: usize,
        f: &mut Flow,
    ) -> R<usize> {
        let pad = padding(style, cb.w)?;
        let bor = style.bwidth;
        let m = margin(style, cb.w);
        let (mt, mb) = (m[0].unwrap_or(0.), m[2].unwrap_or(0.));
        let pb_inline = pad[1] + pad[3] + bor[1] + bor[3];
        let (w, ml) = match lp(style.width, cb.w) {
            Some(w) => {
                if w < 0. {
                    return Err(Discard("negative width"));
                }
                distinct_from_zero(w)?;
                let rest = cb.w - w - pb_inline;
                let ml = match (m[3], m[1]) {
                    (None, None) => {
                        self.st.hit("auto margins both");
                        if rest < 0. {
                            self.st.hit("auto margins overflow")
                        }
                        (rest / 2.).max(0.)
                    }
                    (None, Some(r)) => {
                        self.st.hit("auto margin left");
                        (rest - r).max(0.)
                    }
                    (Some(l), None) => {
                        self.st.hit("auto margin right");
                        l
                    }
                    (Some(l), Some(_)) => {
                        self.st.hit("definite width");
                        l
                    }
                };
                (w, ml)
            }
            None => {
                let l = m[3].unwrap_or(0.);
                let w = cb.w - pb_inline - l - m[1].unwrap_or(0.);
                if w < 0. {
                    self.st.hit("auto width clamped")
                }
                if m[3].is_none() || m[1].is_none() {
                    self.st.hit("auto margin with auto width")
                }
                (w.max(0.), l)
            }
        };
        let h = match style.height {
            Lpa::Px(x) => Some(x),
            Lpa::Pct(p) => {
                self.st.hit(if cb.h.is_some() { "percentage height" } else { "percentage height of auto" });
                cb.h.map(|h| h * p / 100.)
            }
            Lpa::Auto => None,
        };
        if h.map_or(false, |h| h < 0.) {
            return Err(Discard("negative height"));
        }
        distinct_from_zero(h.unwrap_or(0.))?;
        let (pbt, pbb) = (pad[0] + bor[0], pad[2] + bor[2]);
        let id = self.new_frag(style, cb.x + ml, pad);
        self.frags[id].w = w + pb_inline;
        self.frags[id].rel = relative(style, cb.w, cb.h);
        if style.position == Pos::Relative {
            self.st.hit("relative block")
        }
        if f.margins.iter().any(|m| *m != 0.) && mt != 0. {
            self.st.hit("adjoining margins");
            if f.margins.iter().chain(Some(&mt)).any(|m| *m < 0.) {
                self.st.hit("adjoining margins negative")
            }
        }
        f.margins.push(mt);
        let joined = !independent && pbt == 0.;
        if joined {
            f.deferred.push(id);
        } else {
            self.flush(f);
            self.frags[id].y = Some(f.y);
            f.y += pbt
        }
        let inner = Cb { x: cb.x + ml + bor[3] + pad[3], w, h };
        let inner_cbf = if style.position == Pos::Relative { id } else { cbf };
        // Anonymous boxes are ignored for percentages that would refer to them
        let pct_h = if anonymous { cb.h } else { h };
        if independent {
            let mut g = Flow { y: f.y, ..Default::default() };
            self.contents(content, inner, pct_h, id, inner_cbf, &mut g)?;
            self.flush(&mut g);
            let auto = g.y - f.y;
            if h.is_none() && auto < 0. {
                self.st.hit("auto height clamped")
            }
            f.y += h.unwrap_or(auto.max(0.)) + pbb
        } else {
            self.contents(content, inner, pct_h, id, inner_cbf, f)?;
            if self.frags[id].y.is_none() {
                // All margins of descendants collapse with the top margin of this
                if h.unwrap_or(0.) == 0. && pbb == 0. {
                    self.st.hit("collapse through");
                    if self.frags[parent].y.is_some() {
                        // as if it had a bottom border
                        let y = f.y + solve(&f.margins);
                        for d in f.deferred.drain(..) {
                            self.frags[d].y = Some(y)
                        }
                    }
                    // otherwise, at the same position as the parent
                    f.margins.push(mb);
                    return Ok(id);
                }
                self.flush(f);
            }
            let y = self.frags[id].y.unwrap();
            match h {
                Some(h) => {
                    if f.margins.iter().any(|m| *m != 0.) {
                        self.st.hit("child margin lost in definite height")
                    }
                    f.margins.clear();
                    f.y = y + pbt + h + pbb
                }
                None => {
                    if pbb != 0. {
                        if f.margins.iter().any(|m| *m != 0.) {
                            self.st.hit("child margin inside padding")
                        }
                        self.flush(f)
                    } else if mb != 0. && f.margins.iter().any(|m| *m != 0.) {
                        self.st.hit("end margins collapse with parent")
                    }
                    if f.y < y + pbt {
                        self.st.hit("auto height clamped");
                        f.y = y + pbt
                    }
                    f.y += pbb
                }
            }
        }
        self.frags[id].h = f.y - self.frags[id].y.unwrap();
        f.margins.push(mb);
        Ok(id)
    }

    // ------------------------------------------------------------ inline

    fn inline(&mut self, boxes: &[Inl], cb: Cb, pct_h: Option<f64>, parent: usize, cbf: usize, f: &mut Flow) -> R<()> {
        let mut l = Liner { cb, pos: 0., open: vec![], lines: vec![vec![]], any_text: false, any_box: false, any_part: false, abs: vec![] };
        l.list(boxes, false, self.st)?;
        if l.any_part && !l.any_box && !l.any_text {
            // Does a part of an inline box without its edges make a line?
            return Err(Discard("line with only a part of an inline box"));
        }
        let phantom = !l.any_text && !l.any_box;
        if l.any_box && !l.any_text {
            self.st.hit("line without text")
        }
        let top = if phantom {
            self.st.hit("phantom line");
            0.
        } else {
            self.flush(f);
            f.y
        };
        let mut tops = vec![];
        for line in &l.lines {
            tops.push(f.y - top);
            if phantom {
                break;
            }
            let mut it = line.iter();
            let (h, kids) = self.line(&mut it, f.y, cb, pct_h)?;
            self.frags[parent].kids.extend(kids);
            f.y += h
        }
        if l.lines.len() > 1 {
            self.st.hit("several lines")
        }
        if l.lines.len() > 2 {
            self.st.hit("many lines")
        }
        for (b, line, x) in l.abs {
            let inline = b.style.specified_display == Disp::Inline;
            let uses_static = b.style.off[0] == Lpa::Auto && b.style.off[2] == Lpa::Auto;
            if !inline && uses_static && !phantom {
                // CSS 2 would put it below the current line if that has any content
                return Err(Discard("block-level static position in a line"));
            }
            self.st.hit("static position in a line");
            let dy = if phantom { 0. } else { tops[line] };
            let dx = if inline { x } else { 0. };
            self.frags[cbf].abs.push(PendingAbs { b, of: parent, dx, dy })
        }
        Ok(())
    }

    /// Returns the height of the contents of a line or inline box, up to its end in that line.
    fn line(&mut self, it: &mut std::slice::Iter<Item>, top: f64, cb: Cb, pct_h: Option<f64>) -> R<(f64, Vec<Kid>)> {
        let mut h = 0f64;
        let mut kids = vec![];
        loop {
            if let Some(Item::Close { .. }) = it.as_slice().first() {
                break;
            }
            let item = match it.next() {
                Some(i) => i,
                None => break,
            };
            match item {
                Item::Text { style, x, glyphs } => {
                    h = h.max(1.2 * style.font_size);
                    kids.push(Kid::Text {
                        style: style.clone(),
                        x: cb.x + x,
                        y: top + VERA.ascender * style.font_size,
                        glyphs: glyphs.clone(),
                    })
                }
                Item::Open { style, x, first } => {
                    let pad = padding(style, cb.w)?;
                    let m = margin(style, cb.w);
                    let m = [m[0].unwrap_or(0.), 0., m[2].unwrap_or(0.), 0.];
                    let b = style.bwidth;
                    let left = if *first { pad[3] + b[3] } else { 0. };
                    let id = self.new_frag(style, cb.x + x - left, pad);
                    let (ih, ikids) = self.line(it, top + m[0] + b[0] + pad[0], cb, pct_h)?;
                    // `line` stopped at the end of this box
                    let (end, last) = match it.as_slice().first() {
                        Some(Item::Close { x, last }) => (*x, *last),
                        _ => panic!("unbalanced"),
                    };
                    it.next();
                    let right = if last { pad[1] + b[1] } else { 0. };
                    let fr = &mut self.frags[id];
                    fr.y = Some(top + m[0]);
                    fr.h = b[0] + pad[0] + ih + pad[2] + b[2];
                    fr.w = left + (end - x) + right;
                    fr.kids = ikids;
                    fr.rel = relative(style, cb.w, pct_h);
                    if style.position == Pos::Relative {
                        self.st.hit("relative inline")
                    }
                    h = h.max(m[0] + self.frags[id].h + m[2]);
                    kids.push(Kid::Frag(id))
                }
                Item::Close { .. } => unreachable!(),
            }
        }
        Ok((h, kids))
    }

    // ------------------------------------------------------------ painting

    fn paint(&mut self, id: usize, dx: f64, dy: f64) -> R<()> {
        let (dx, dy) = {
            let f = &mut self.frags[id];
            f.shift = (dx + f.rel.0, dy + f.rel.1);
            f.shift
        };
        let f = &self.frags[id];
        let (x, y) = (f.x + dx, f.y.unwrap() + dy);
        let bg = f.style.bg.unwrap_or(f.style.color);
        if bg[3] > 0 {
            self.out.push(Out::Rect { x, y, w: f.w, h: f.h, rgba: bg })
        }
        for kid in std::mem::take(&mut self.frags[id].kids) {
            match kid {
                Kid::Frag(k) => self.paint(k, dx, dy)?,
                Kid::Text { style, x, y, glyphs } => {
                    let mut x = x + dx;
                    for g in glyphs {
                        self.out.push(Out::Glyph { gid: g, x, y: y + dy, size: style.font_size, rgba: style.color });
                        x += VERA.advances[g as usize] * style.font_size
                    }
                }
            }
        }
        let f = &self.frags[id];
        let b = f.style.bwidth;
        let rect = (x + b[3], y + b[0], f.w - b[1] - b[3], f.h - b[0] - b[2]);
        self.paint_abs(id, rect)
    }

    fn paint_abs(&mut self, id: usize, cb: (f64, f64, f64, f64)) -> R<()> {
        for a in std::mem::take(&mut self.frags[id].abs) {
            let of = &self.frags[a.of];
            let b = of.style.bwidth;
            let sx = of.x + of.shift.0 + b[3] + of.padding[3] + a.dx;
            let sy = of.y.unwrap() + of.shift.1 + b[0] + of.padding[0] + a.dy;
            self.absolute(&a.b, cb, (sx, sy))?
        }
        Ok(())
    }

    /// https://drafts.csswg.org/css2/visudet.html#abs-non-replaced-width
    fn absolute(&mut self, a: &AbsBox, cb: (f64, f64, f64, f64), stat: (f64, f64)) -> R<()> {
        let s = &a.style;
        let (cx, cy, cw, ch) = cb;
        let pad = padding(s, cw)?;
        let bor = s.bwidth;
        let m = margin(s, cw);
        let pbx = pad[1] + pad[3] + bor[1] + bor[3];
        let pby = pad[0] + pad[2] + bor[0] + bor[2];
        let (left, right) = (lp(s.off[3], cw), lp(s.off[1], cw));
        let (top, bottom) = (lp(s.off[0], ch), lp(s.off[2], ch));
        let width = lp(s.width, cw);
        let height = lp(s.height, ch);
        let st = &mut *self.st;
        let clamped = std::cell::Cell::new(false);
        let clamp = |v: f64, auto_margin: bool| {
            if v >= 0. {
                return Ok(v);
            }
            // https://drafts.csswg.org/css2/visudet.html#min-max-widths
            clamped.set(true);
            if auto_margin {
                return Err(Discard("negative absolute size with auto margins"));
            }
            Ok(0.)
        };
        let auto_width = |v: f64| clamp(v, m[1].is_none() || m[3].is_none());
        // inline axis
        let (mut ml, mut mr) = (m[3].unwrap_or(0.), m[1].unwrap_or(0.));
        let w = match (left, right, width) {
            (Some(l), Some(r), Some(w)) => {
                let rest = cw - l - r - w - pbx;
                match (m[3], m[1]) {
                    (None, None) => {
                        st.hit("abs auto margins");
                        if rest >= 0. {
                            ml = rest / 2.
                        } else {
                            ml = 0.
                        }
                    }
                    (None, Some(r)) => {
                        st.hit("abs auto margin start");
                        ml = rest - r
                    }
                    _ => {}
                }
                w
            }
            (Some(l), Some(r), None) => {
                st.hit("abs stretched width");
                auto_width(cw - l - r - pbx - ml - mr)?
            }
            (Some(_), None, Some(w)) | (None, Some(_), Some(w)) | (None, None, Some(w)) => w,
            // Victor does not implement shrink-to-fit: the available width is used
            (Some(l), None, None) => auto_width(cw - l - pbx - ml - mr)?,
            (None, Some(r), None) => auto_width(cw - r - pbx - ml - mr)?,
            (None, None, None) => auto_width(cw - (stat.0 - cx) - pbx - ml - mr)?,
        };
        let (mut mt, mut mb) = (m[0].unwrap_or(0.), m[2].unwrap_or(0.));
        let h = match (top, bottom, height) {
            (Some(t), Some(b), Some(h)) => {
                let rest = ch - t - b - h - pby;
                match (m[0], m[2]) {
                    (None, None) => {
                        st.hit("abs auto block margins");
                        mt = rest / 2.;
                        mb = rest / 2.
                    }
                    (None, Some(b)) => {
                        st.hit("abs auto margin top");
                        mt = rest - b
                    }
                    _ => {}
                }
                Some(h)
            }
            (Some(t), Some(b), None) => {
                st.hit("abs stretched height");
                Some(clamp(ch - t - b - pby - mt - mb, m[0].is_none() || m[2].is_none())?)
            }
            (_, _, h) => h,
        };
        if w < 0. || h.map_or(false, |h| h < 0.) {
            return Err(Discard("negative absolute size"));
        }
        if clamped.get() {
            st.hit("abs clamped size")
        }
        let id = self.new_frag(s, 0., pad);
        let cbx = Cb { x: bor[3] + pad[3], w, h };
        self.frags[id].y = Some(0.);
        let y0 = bor[0] + pad[0];
        let mut f = Flow { y: y0, ..Default::default() };
        self.contents(&a.content, cbx, h, id, id, &mut f)?;
        self.flush(&mut f);
        let h = h.unwrap_or((f.y - y0).max(0.));
        self.frags[id].w = w + pbx;
        self.frags[id].h = h + pby;
        let x = match (left, right) {
            (Some(l), _) => {
                self.st.hit("abs left");
                cx + l + ml
            }
            (None, Some(r)) => {
                self.st.hit("abs right");
                cx + cw - r - mr - w - pbx
            }
            (None, None) => {
                self.st.hit("abs static x");
                stat.0 + ml
            }
        };
        let y = match (top, bottom) {
            (Some(t), _) => {
                self.st.hit("abs top");
                cy + t + mt
            }
            (None, Some(b)) => {
                self.st.hit("abs bottom");
                cy + ch - b - mb - h - pby
            }
            (None, None) => {
                self.st.hit("abs static y");
                stat.1 + mt
            }
        };
        let _ = (&mut mr, &mut mb);
        self.paint(id, x, y)
    }
}

enum Item {
    Open { style: Rc<Style>, x: f64, first: bool },
    Close { x: f64, last: bool },
    Text { style: Rc<Style>, x: f64, glyphs: Vec<u16> },
}

struct Liner {
    cb: Cb,
    pos: f64,
    open: Vec<Rc<Style>>,
    lines: Vec<Vec<Item>>,
    any_text: bool,
    any_box: bool,
    any_part: bool,
    /// box, line, position
    abs: Vec<(Rc<AbsBox>, usize, f64)>,
}

impl Liner {
    fn put(&mut self, i: Item) {
        self.lines.last_mut().unwrap().push(i)
    }
    fn list(&mut self, boxes: &[Inl], in_relative: bool, st: &mut Stats) -> R<()> {
        for b in boxes {
            match b {
                Inl::Box { style, first, last, children } => {
                    let pad = padding(style, self.cb.w)?;
                    let m = margin(style, self.cb.w);
                    let m: Vec<f64> = m.iter().map(|m| m.unwrap_or(0.)).collect();
                    let b = style.bwidth;
                    if (0..4).any(|i| pad[i] != 0. || b[i] != 0. || m[i] != 0.) {
                        if *first && *last {
                            self.any_box = true
                        } else {
                            self.any_part = true
                        }
                    }
                    if *first {
                        self.pos += m[3] + b[3] + pad[3]
                    }
                    let x = self.pos;
                    self.put(Item::Open { style: style.clone(), x, first: *first });
                    self.open.push(style.clone());
                    self.list(children, in_relative || style.position == Pos::Relative, st)?;
                    self.open.pop();
                    let x = self.pos;
                    self.put(Item::Close { x, last: *last });
                    if *last {
                        self.pos += pad[1] + b[1] + m[1]
                    }
                }
                Inl::Text { style, text, .. } => self.run(style, text, st)?,
                Inl::Float => {}
                Inl::Abs(a) => {
                    if in_relative {
                        return Err(Discard("abspos in relative inline"));
                    }
                    let line = self.lines.len() - 1;
                    self.abs.push((a.clone(), line, self.pos))
                }
            }
        }
        Ok(())
    }
    fn over(&self, width: f64, st: &mut Stats) -> R<bool> {
        let available = self.cb.w - self.pos;
        if st.1 {
            if width == available {
                st.hit("exact fit")
            }
            return Ok(width > available);
        }
        if (width - available).abs() < 0.01 {
            return Err(Discard("near tie"));
        }
        Ok(width > available)
    }
    fn run(&mut self, style: &Rc<Style>, text: &str, st: &mut Stats) -> R<()> {
        self.any_text = true;
        let fs = style.font_size;
        // Words; lines break at the spaces between them, and only there
        let words: Vec<Vec<u16>> = text.split(' ').map(|w| VERA.glyphs(w)).collect();
        let width = |w: &[u16]| w.iter().map(|g| VERA.advances[*g as usize]).sum::<f64>() * fs;
        let space = VERA.glyph(' ');
        let mut line: Vec<u16> = words[0].clone();
        // Every word is measured together with what precedes it in this line
        let mut over = self.over(width(&line), st)?;
        for (i, w) in words.iter().enumerate().skip(1) {
            let mut with = line.clone();
            with.push(space);
            with.extend(w);
            let fits = !over && !self.over(width(&with), st)?;
            if fits {
                line = with;
                continue;
            }
            if i == words.len() - 1 && w.is_empty() {
                // a space at the end of the run, that does not fit: no line is needed
                st.hit("trailing space dropped");
                break;
            }
            st.hit("line break");
            if over {
                st.hit("overlong word")
            }
            self.place(style, line);
            self.break_line(st);
            line = w.clone();
            over = self.over(width(&line), st)?;
        }
        self.place(style, line);
        Ok(())
    }
    fn place(&mut self, style: &Rc<Style>, glyphs: Vec<u16>) {
        let x = self.pos;
        self.pos += glyphs.iter().map(|g| VERA.advances[*g as usize]).sum::<f64>() * style.font_size;
        self.put(Item::Text { style: style.clone(), x, glyphs })
    }
    fn break_line(&mut self, st: &mut Stats) {
        if !self.open.is_empty() {
            st.hit("broken inline box")
        }
        let x = self.pos;
        for _ in 0..self.open.len() {
            self.put(Item::Close { x, last: false })
        }
        self.lines.push(vec![]);
        self.pos = 0.;
        for s in self.open.clone() {
            self.put(Item::Open { style: s, x: 0., first: false })
        }
    }
}

pub fn layout(doc: &Doc, st: &mut Stats) -> R<Vec<Out>> {
    let styles = styles(doc);
    layout_with(doc, &styles, st)
}

pub fn layout_with(doc: &Doc, styles: &Styles, st: &mut Stats) -> R<Vec<Out>> {
    let style = styles[&doc.root.id].clone();
    if style.display == Disp::None {
        return Ok(vec![]);
    }
    let content = build(styles, &doc.root, &style, st)?;
    let mut l = Layout { frags: vec![], out: vec![], st };
    let icb = l.new_frag(&Rc::new(css::initial()), 0., [0.; 4]);
    l.frags[icb].style = {
        let mut s = css::initial();
        s.bwidth = [0.; 4];
        Rc::new(s)
    };
    l.frags[icb].y = Some(0.);
    l.frags[icb].w = PAGE.0;
    l.frags[icb].h = PAGE.1;
    let cb = Cb { x: 0., w: PAGE.0, h: Some(PAGE.1) };
    if style.position == Pos::Absolute {
        let b = Rc::new(AbsBox { style, content });
        l.frags[icb].abs.push(PendingAbs { b, of: icb, dx: 0., dy: 0. });
    } else if style.float != css::Fl::None {
        return Err(Discard("float with a size"));
    } else {
        let mut f = Flow::default();
        let k = l.block(&style, &content, true, false, cb, icb, icb, &mut f)?;
        l.frags[icb].kids.push(Kid::Frag(k))
    }
    l.paint(icb, 0., 0.)?;
    Ok(l.out)
}
