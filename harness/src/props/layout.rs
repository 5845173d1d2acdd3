//! C16 to C21: box generation, layout, positioning, painting.
use super::page::*;
use super::decls::*;
use crate::engine::*;
use crate::models::css::*;
use crate::models::dom::{El, Node};
use crate::models::layout::{Doc, Out, Stats};
use std::collections::HashMap;

fn run(g: &mut G, cx: &mut Cx, k: &Knobs, wanted: &[&'static str], at_least: u64) -> Result<(), Fail> {
    let doc = PageGen::doc(g, k);
    let html = html_text(&doc);
    if let Some(st) = check_doc(&doc, &html, cx, k)? {
        cx.nontrivial = wanted.iter().map(|w| st.get(w)).sum::<u64>() >= at_least
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

const CROWD: (u64, u64) = (5_000, 60_000);

fn widths_knobs() -> Knobs {
    Knobs {
        kinds: [6, 70, 4, 6, 2, 1, 2, 0],
        width: 60,
        height: 40,
        inline_axis: 45,
        block_axis: 3,
        auto: 40,
        pct: 25,
        negative: 20,
        relative: 3,
        ..BASE
    }
}
fn c16(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    run(
        g,
        cx,
        &widths_knobs(),
        &["auto margins both", "auto margin left", "auto margin right", "definite width", "auto width clamped", "auto margin with auto width"],
        2,
    )
}
/// The same documents, with many copies of some elements
fn crowd(g: &mut G, cx: &mut Cx, k: Knobs) -> Result<(), Fail> {
    let k = Knobs { crowd: true, max_elements: 10, ..k };
    let doc = PageGen::doc(g, &k);
    let html = html_text(&doc);
    let n = doc.root.count();
    if check_doc(&doc, &html, cx, &k)?.is_some() {
        cx.nontrivial = n > 30;
        if n > 255 {
            cx.label("more than 255 elements")
        }
    }
    Ok(())
}
fn c16_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, widths_knobs())
}
pub fn widths() -> Prop {
    Prop {
        id: "C16",
        rule: "a case is a document; non-trivial if at least two boxes have a definite width, an auto margin, or a clamped auto width",
        assumptions: &["horizontal writing mode, left to right: the only ones implemented"],
        parts: vec![part("pages", 64_000, 900_000, c16), part("crowd", CROWD.0, CROWD.1, c16_crowd)],
    }
}

// ---------------------------------------------------------------- C17

fn c17_knobs() -> Knobs {
    Knobs {
        kinds: [12, 70, 6, 6, 3, 1, 1, 1],
        width: 5,
        height: 25,
        inline_axis: 2,
        block_axis: 45,
        auto: 5,
        pct: 15,
        negative: 30,
        relative: 3,
        inline_boxes: 5,
        max_depth: 8,
        ..BASE
    }
}
fn c17_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, c17_knobs())
}
fn c17(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = c17_knobs();
    run(
        g,
        cx,
        &k,
        &["adjoining margins", "adjoining margins negative", "collapse through", "child margin lost in definite height", "child margin inside padding", "end margins collapse with parent"],
        2,
    )
}
pub fn stacking() -> Prop {
    Prop {
        id: "C17",
        rule: "a case is a document; non-trivial if margins adjoin at least twice",
        assumptions: &[],
        parts: vec![part("pages", 64_000, 900_000, c17), part("crowd", CROWD.0, CROWD.1, c17_crowd)],
    }
}

// ---------------------------------------------------------------- C18

fn c18_knobs() -> Knobs {
    Knobs {
        kinds: [60, 15, 45, 1, 3, 1, 1, 3],
        width: 70,
        height: 5,
        inline_axis: 8,
        block_axis: 5,
        inline_boxes: 25,
        auto: 10,
        font_size: 25,
        negative: 15,
        relative: 15,
        words: 6,
        narrow: true,
        avg_children: 4,
        ..BASE
    }
}
fn c18_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, c18_knobs())
}
fn c18(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = c18_knobs();
    run(g, cx, &k, &["line break", "broken inline box", "trailing space dropped", "relative inline"], 1)
}

/// A paragraph with nested inline boxes. All lengths are multiples of 1/128 px.
struct Para<'g> {
    g: &'g mut G,
    id: usize,
    left: usize,
    attrs: HashMap<usize, Vec<Decl>>,
}
impl Para<'_> {
    fn el(&mut self, name: &str, sets: &[(Lh, Sv)]) -> El {
        let mut e = El::new(name);
        e.id = self.id;
        self.id += 1;
        self.set(&mut e, sets);
        e
    }
    fn set(&mut self, e: &mut El, sets: &[(Lh, Sv)]) {
        let ds: Vec<Decl> = sets
            .iter()
            .map(|(lh, v)| match v {
                Sv::Px(x) => decl_from(&lh.name(), &format!("{}px", x), vec![(*lh, *v)], false, self.g, false),
                _ => decl(*lh, *v, false, self.g, false),
            })
            .collect();
        e.attrs.retain(|a| a.0 != "style");
        if !ds.is_empty() {
            e.attrs.push(("style".into(), block_text(&ds, self.g, false)))
        }
        self.attrs.insert(e.id, ds);
    }
    fn content(&mut self, depth: usize) -> Vec<Node> {
        let mut v = vec![];
        for _ in 0..self.g.us(1, 3) {
            if self.left == 0 {
                break;
            }
            self.left -= 1;
            if depth < 3 && self.g.chance(35) {
                let mut sets = vec![];
                for i in [1, 3] {
                    if self.g.chance(30) {
                        sets.push((Lh::Padding(i), Sv::Px(*self.g.pick(&[5., 1., 2.5, 16.]))))
                    }
                    if self.g.chance(20) {
                        sets.push((Lh::Margin(i), Sv::Px(*self.g.pick(&[5., -3., 0.25]))))
                    }
                    if self.g.chance(20) {
                        sets.push((Lh::BWidth(i), Sv::Px(*self.g.pick(&[1., 3.5]))));
                        sets.push((Lh::BStyle(i), Sv::Line(Line::Solid)))
                    }
                }
                if self.g.chance(30) {
                    sets.push((Lh::FontSize, Sv::Px(*self.g.pick(&[8., 16., 32., 24.]))))
                }
                if self.g.chance(40) {
                    sets.push((Lh::Bg, Sv::Rgba(color(self.g))))
                }
                let mut e = self.el("span", &sets);
                e.children = self.content(depth + 1);
                v.push(Node::El(e))
            } else {
                let n = self.g.us(1, 5);
                let mut t = String::new();
                if self.g.chance(30) {
                    t.push(' ')
                }
                for i in 0..n {
                    if i > 0 {
                        t.push(' ')
                    }
                    t.push_str(*self.g.pick(&["a", "in", "the", "Wim", "iiii", "x-y", "word", "‰‰‰", "‰‰‰‰‰‰‰‰", "…—"]))
                }
                if self.g.chance(30) {
                    t.push(' ')
                }
                match v.last_mut() {
                    Some(Node::Text(before)) => before.push_str(&t),
                    _ => v.push(Node::Text(t)),
                }
            }
        }
        v
    }
}

fn c18_fit(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut p = Para { g, id: 1, left: 12, attrs: HashMap::new() };
    let mut root = p.el("html", &[]);
    let head = p.el("head", &[]);
    let mut body = p.el("body", &[]);
    let mut sets = vec![(Lh::Width, Sv::Px(100_000.))];
    let mut inner = vec![];
    if p.g.chance(30) {
        inner.push((Lh::Padding(3), Sv::Px(*p.g.pick(&[4., 0.5]))));
    }
    if p.g.chance(20) {
        sets.push((Lh::Padding(1), Sv::Px(*p.g.pick(&[4., 0.5]))));
    }
    if p.g.chance(30) {
        sets.push((Lh::FontSize, Sv::Px(*p.g.pick(&[8., 32., 20.]))))
    }
    let mut div = p.el("div", &sets);
    let mut within = p.el("p", &inner);
    within.children = p.content(0);
    div.children.push(Node::El(within));
    body.children.push(Node::El(div));
    root.children = vec![Node::El(head), Node::El(body)];
    // All on one line: where do the words end?
    let doc = Doc { root: root.clone(), rules: vec![], attrs: p.attrs.clone() };
    let mut st = Stats(Default::default(), true);
    let ends: Vec<f64> = match crate::models::layout::layout(&doc, &mut st) {
        Ok(items) => {
            let v = &crate::models::font::VERA;
            let letter = |o: Option<&Out>| match o {
                Some(Out::Glyph { gid, x, size, .. }) if *gid != v.glyph(' ') => Some(x + v.advances[*gid as usize] * size),
                _ => None,
            };
            let glyphs: Vec<&Out> = items.iter().filter(|o| matches!(o, Out::Glyph { .. })).collect();
            (0..glyphs.len()).filter(|i| letter(glyphs.get(i + 1).copied()).is_none()).filter_map(|i| letter(Some(glyphs[i]))).collect()
        }
        Err(_) => vec![],
    };
    if ends.is_empty() {
        cx.discarded = true;
        cx.label("discard: no text");
        return Ok(());
    }
    let left = 8. + inner.iter().map(|s| if let Sv::Px(x) = s.1 { x } else { 0. }).sum::<f64>();
    let mut w = *p.g.pick(&ends) - left;
    // The width of `p` is what remains of that of `div`
    w += left - 8. + *p.g.pick(&[0., 0., 0., 0.0078125, -0.0078125, 0.25, -0.25]);
    if w <= 0. {
        w = 1.
    }
    sets[0].1 = Sv::Px(w);
    if let Node::El(body) = &mut root.children[1] {
        if let Node::El(div) = &mut body.children[0] {
            p.set(div, &sets)
        }
    }
    let doc = Doc { root, rules: vec![], attrs: p.attrs };
    let html = html_text(&doc);
    if let Some(st) = check_with(&doc, &html, false, cx, false, Stats(Default::default(), true))? {
        cx.nontrivial = st.get("exact fit") > 0
    }
    Ok(())
}

pub fn inline() -> Prop {
    Prop {
        id: "C18",
        rule: "a case is a document; non-trivial if a line is broken or an inline box is relatively positioned; in `fit`, if text fits exactly",
        assumptions: &[],
        parts: vec![part("pages", 56_000, 700_000, c18), part("crowd", CROWD.0, CROWD.1, c18_crowd), part("fit", 60_000, 700_000, c18_fit)],
    }
}

// ---------------------------------------------------------------- C19

fn c19_knobs() -> Knobs {
    Knobs {
        kinds: [12, 35, 10, 4, 2, 1, 40, 1],
        width: 35,
        height: 35,
        inline_axis: 25,
        block_axis: 18,
        auto: 45,
        pct: 30,
        negative: 20,
        relative: 40,
        max_elements: 25,
        ..BASE
    }
}
fn c19_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, c19_knobs())
}
fn c19(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = c19_knobs();
    run(
        g,
        cx,
        &k,
        &["abs left", "abs right", "abs static x", "abs top", "abs bottom", "abs static y", "relative block", "relative inline"],
        3,
    )
}
pub fn positioning() -> Prop {
    Prop {
        id: "C19",
        rule: "a case is a document; non-trivial if at least three positioning decisions (a relative offset, or an axis of an absolutely positioned box) are made",
        assumptions: &["boxes with an automatic width are as wide as available: shrink-to-fit is not implemented"],
        parts: vec![part("pages", 64_000, 900_000, c19), part("crowd", CROWD.0, CROWD.1, c19_crowd)],
    }
}

// ---------------------------------------------------------------- C20

fn c20_knobs() -> Knobs {
    Knobs {
        kinds: [50, 25, 30, 3, 15, 8, 3, 8],
        width: 3,
        height: 3,
        inline_axis: 1,
        block_axis: 1,
        inline_boxes: 3,
        relative: 2,
        font_size: 15,
        words: 2,
        spaces: 40,
        avg_children: 4,
        max_elements: 50,
        max_depth: 8,
        root_styles: 5,
        ..BASE
    }
}
fn c20_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, c20_knobs())
}
fn c20(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = c20_knobs();
    run(g, cx, &k, &["display none", "display contents", "anonymous block", "block in inline", "flow root"], 2)
}
pub fn boxes() -> Prop {
    Prop {
        id: "C20",
        rule: "a case is a document; non-trivial if it has at least two of: an element not displayed, display: contents, an anonymous block box, a block inside of an inline box, a flow root",
        assumptions: &[],
        parts: vec![part("pages", 56_000, 700_000, c20), part("crowd", CROWD.0, CROWD.1, c20_crowd)],
    }
}

// ---------------------------------------------------------------- C21

fn c21_knobs() -> Knobs {
    Knobs {
        kinds: [20, 45, 20, 2, 3, 1, 20, 0],
        width: 30,
        height: 40,
        inline_axis: 10,
        block_axis: 15,
        inline_boxes: 10,
        negative: 40,
        relative: 25,
        background: 90,
        alpha: true,
        ordered: true,
        ..BASE
    }
}
fn c21_crowd(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    crowd(g, cx, c21_knobs())
}
fn c21(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = c21_knobs();
    let doc = PageGen::doc(g, &k);
    let html = html_text(&doc);
    if check_doc(&doc, &html, cx, &k)?.is_some() {
        let n = doc.root.count();
        cx.nontrivial = n >= 5
    }
    Ok(())
}
pub fn painting() -> Prop {
    Prop {
        id: "C21",
        rule: "a case is a document; non-trivial if it has at least 5 elements",
        assumptions: &["borders are not painted: not implemented"],
        parts: vec![part("pages", 56_000, 700_000, c21), part("crowd", CROWD.0, CROWD.1, c21_crowd)],
    }
}
