//! C12 to C15: parsing of declarations and rules, selectors, the cascade, computed values.
//! Each case is a document whose rendering, as predicted by the reference model, depends
//! on the computed style of its elements.
use super::decls::*;
use super::page::*;
use crate::engine::*;
use crate::models::css::*;
use crate::models::dom::{self, El, Node};
use crate::models::layout::{self, Doc};
use crate::models::sel::{self, *};
use std::collections::HashMap;

// ---------------------------------------------------------------- trees

const NAMES: &[&str] = &["div", "span", "div", "em", "x-y", "section", "blockquote", "b", "main"];

pub struct Tree<'g> {
    pub g: &'g mut G,
    pub next_id: usize,
    pub left: usize,
    pub attrs: HashMap<usize, Vec<Decl>>,
    /// percentage of elements without text
    pub empty: u64,
    pub decorate: fn(&mut G, &mut El),
}
impl<'g> Tree<'g> {
    pub fn new(g: &'g mut G, left: usize, decorate: fn(&mut G, &mut El)) -> Tree<'g> {
        Tree { g, next_id: 1, left, attrs: HashMap::new(), empty: 5, decorate }
    }
    pub fn el(&mut self, name: &str) -> El {
        let mut e = El::new(name);
        e.id = self.next_id;
        self.next_id += 1;
        e
    }
    fn element(&mut self, depth: usize) -> El {
        let name = *self.g.pick(NAMES);
        let mut e = self.el(name);
        (self.decorate)(self.g, &mut e);
        if !self.g.chance(self.empty) {
            let t = *self.g.pick(&["x", "ab", "in ", "W", " i", "é"]);
            e.push(Node::Text(t.into()))
        } else {
            match self.g.upto(5) {
                0 => e.push(Node::Comment("c".into())),
                1 => e.push(Node::Text(" ".into())),
                _ => {}
            }
        }
        self.children(&mut e, depth);
        e
    }
    fn children(&mut self, e: &mut El, depth: usize) {
        let mut n = 0;
        while self.left > 0 && depth < 6 && n < 6 && self.g.chance(if depth == 0 { 75 } else { 50 }) {
            self.left -= 1;
            n += 1;
            let s = self.g.rec.len();
            let c = self.element(depth + 1);
            e.push(Node::El(c));
            match self.g.upto(9) {
                0 => e.push(Node::Comment(" - ".into())),
                1 | 2 => e.push(Node::Text("t".into())),
                3 => e.push(Node::Text("\n ".into())),
                _ => {}
            }
            let end = self.g.rec.len();
            self.g.spans.push((s, end))
        }
    }
    /// html, head and body, the latter with descendants
    pub fn doc(mut self) -> Doc {
        let mut root = self.el("html");
        let head = self.el("head");
        let mut body = self.el("body");
        (self.decorate)(self.g, &mut root);
        (self.decorate)(self.g, &mut body);
        self.children(&mut body, 0);
        root.children = vec![Node::El(head), Node::El(body)];
        Doc { root, rules: vec![], attrs: self.attrs }
    }
}

/// Every element of the tree, in tree order, each with a chance to change it
fn each_el(e: &mut El, f: &mut dyn FnMut(&mut El)) {
    f(e);
    for c in &mut e.children {
        if let Node::El(e) = c {
            each_el(e, f)
        }
    }
}
fn paths<'a>(e: &'a El, index: usize, path: &mut Vec<(&'a El, usize)>, out: &mut Vec<Vec<(&'a El, usize)>>) {
    path.push((e, index));
    out.push(path.clone());
    for (i, c) in e.children.iter().enumerate() {
        if let Node::El(e) = c {
            paths(e, i, path, out)
        }
    }
    path.pop();
}
fn all_paths(root: &El) -> Vec<Vec<(&El, usize)>> {
    let mut out = vec![];
    paths(root, 0, &mut vec![], &mut out);
    out
}

/// Insert an element somewhere under head or body
fn insert_anywhere(g: &mut G, root: &mut El, new: El, head: bool) {
    let at = if head { 0 } else { 1 };
    let mut e = match &mut root.children[at] {
        Node::El(e) => e,
        _ => unreachable!(),
    };
    loop {
        let subs: Vec<usize> =
            (0..e.children.len()).filter(|i| matches!(&e.children[*i], Node::El(c) if c.name != "style" && c.name != "title" && !dom::VOID.contains(&&*c.name))).collect();
        if subs.is_empty() || !g.chance(40) {
            break;
        }
        let k = *g.pick(&subs);
        e = match &mut e.children[k] {
            Node::El(e) => e,
            _ => unreachable!(),
        }
    }
    let k = g.us(0, e.children.len());
    e.children.insert(k, Node::El(new))
}

pub fn style_attr(e: &mut El, text: &str) {
    e.attrs.retain(|a| a.0 != "style");
    e.attrs.push(("style".into(), text.into()))
}

// ---------------------------------------------------------------- values

fn px(g: &mut G) -> f64 {
    *g.pick(&[5., 1., 10., 2.5, 20., 0., 33.25, 60., 0.5, 100., 7., 3.14, 12.345, 0.1, 41.7])
}
fn nonneg(g: &mut G, pct: bool) -> Sv {
    match g.upto(9) {
        0 | 1 => Sv::Em(*g.pick(&[1., 0.5, 2., 1.25, 0., 1.01, 0.333, 2.37])),
        2 | 3 if pct => Sv::Pct(*g.pick(&[50., 100., 25., 12.5, 0., 10., 33.33, 7.1, 250.])),
        _ => Sv::Px(px(g)),
    }
}
fn signed(g: &mut G) -> Sv {
    let v = nonneg(g, true);
    if g.chance(20) {
        match v {
            Sv::Px(x) => Sv::Px(-x),
            Sv::Em(x) => Sv::Em(-x),
            Sv::Pct(x) => Sv::Pct(-x),
            v => v,
        }
    } else {
        v
    }
}
fn any_color(g: &mut G) -> Sv {
    match g.upto(9) {
        0 | 1 => Sv::Current,
        2 => Sv::Rgba([0, 0, 0, 0]),
        _ => Sv::Rgba(color(g)),
    }
}

/// a valid value, not a CSS-wide keyword
fn value_for(lh: Lh, g: &mut G) -> Sv {
    match lh {
        Lh::FontSize => loop {
            match nonneg(g, false) {
                Sv::Px(x) if x > 40. => continue,
                v => break v,
            }
        },
        Lh::Color | Lh::BColor(_) | Lh::Bg => any_color(g),
        Lh::Position => Sv::Pos(*g.pick(&[Pos::Relative, Pos::Relative, Pos::Static, Pos::Absolute])),
        // (the contents of floats are not laid out by Victor: mostly `none`)
        Lh::Float => Sv::Fl(*g.pick(&[Fl::None, Fl::None, Fl::None, Fl::None, Fl::Left, Fl::Right])),
        Lh::Display => Sv::Disp(*g.pick(&[Disp::Block, Disp::Inline, Disp::Block, Disp::FlowRoot, Disp::Contents, Disp::None])),
        Lh::Off(_) | Lh::Margin(_) => {
            if g.chance(15) {
                Sv::Auto
            } else {
                signed(g)
            }
        }
        Lh::Width | Lh::Height => {
            if g.chance(15) {
                Sv::Auto
            } else {
                nonneg(g, true)
            }
        }
        Lh::Padding(_) => nonneg(g, true),
        Lh::BStyle(_) => Sv::Line(*g.pick(&[Line::Solid, Line::Solid, Line::None])),
        Lh::BWidth(_) => nonneg(g, false),
    }
}
fn wide(g: &mut G) -> Sv {
    Sv::Wide(*g.pick(&[Wide::Inherit, Wide::Initial, Wide::Unset]))
}

/// the text of a value, where border widths may be keywords
fn text_for(lh: Lh, v: Sv, g: &mut G, wild: bool) -> String {
    if let (Lh::BWidth(_), Sv::Px(x)) = (lh, v) {
        let k = if x == 1. {
            "thin"
        } else if x == 3. {
            "medium"
        } else if x == 5. {
            "thick"
        } else {
            ""
        };
        if !k.is_empty() && g.chance(70) {
            return word(k, g, wild);
        }
    }
    value_text(v, g, wild)
}

fn longhand(g: &mut G) -> Lh {
    match g.weighted(&[8, 8, 4, 4, 6, 6, 6, 10, 10, 6, 10, 10, 8, 2]) {
        0 => Lh::FontSize,
        1 => Lh::Color,
        2 => Lh::Position,
        3 => Lh::Display,
        4 => Lh::Off(g.us(0, 3)),
        5 => Lh::Width,
        6 => Lh::Height,
        7 => Lh::Margin(g.us(0, 3)),
        8 => Lh::Padding(g.us(0, 3)),
        9 => Lh::BColor(g.us(0, 3)),
        10 => Lh::BStyle(g.us(0, 3)),
        11 => Lh::BWidth(g.us(0, 3)),
        12 => Lh::Bg,
        _ => Lh::Float,
    }
}

fn sp(g: &mut G, wild: bool) -> &'static str {
    if wild {
        *g.pick(&[" ", " ", " ", "  ", "\n", "\t", " /**/ ", "/**/ "])
    } else {
        " "
    }
}

/// A declaration of any property, with values of every form
pub fn any_decl(g: &mut G, wild: bool, important: u64, four: &mut bool) -> Decl {
    let imp = g.chance(important);
    if g.chance(65) {
        let lh = longhand(g);
        let v = if g.chance(15) { wide(g) } else { value_for(lh, g) };
        let v = match (lh, v) {
            (Lh::BWidth(_), Sv::Px(_)) if g.chance(40) => Sv::Px(*g.pick(&[1., 3., 5.])),
            (_, v) => v,
        };
        let text = text_for(lh, v, g, wild);
        return decl_from(&lh.name(), &text, vec![(lh, v)], imp, g, wild);
    }
    type Mk = fn(usize) -> Lh;
    let sides: [(&str, Mk); 5] = [
        ("margin", Lh::Margin),
        ("padding", Lh::Padding),
        ("border-style", Lh::BStyle),
        ("border-color", Lh::BColor),
        ("border-width", Lh::BWidth),
    ];
    match g.upto(9) {
        0..=6 => {
            let (name, f) = *g.pick(&sides);
            if g.chance(12) {
                let v = wide(g);
                let t = value_text(v, g, wild);
                return decl_from(name, &t, (0..4).map(|i| (f(i), v)).collect(), imp, g, wild);
            }
            let n = g.us(1, if *four { 4 } else { 3 });
            let vs: Vec<Sv> = (0..n).map(|i| value_for(f(i), g)).collect();
            let at = |i: usize| match (n, i) {
                (1, _) => 0,
                (2, i) => i % 2,
                (3, 3) => 1,
                (_, i) => i,
            };
            *four = n == 4;
            let mut t = String::new();
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    t.push_str(sp(g, wild))
                }
                t.push_str(&text_for(f(0), *v, g, wild))
            }
            decl_from(name, &t, (0..4).map(|i| (f(i), vs[at(i)])).collect(), imp, g, wild)
        }
        7 | 8 => {
            if g.chance(12) {
                let v = wide(g);
                let t = value_text(v, g, wild);
                let sets = vec![(Lh::BStyle(0), v), (Lh::BColor(0), v), (Lh::BWidth(0), v)];
                return decl_from("border-top", &t, sets, imp, g, wild);
            }
            // any non-empty subset, in any order; the others are set to their initial value
            let mut sets = vec![
                (Lh::BStyle(0), Sv::Wide(Wide::Initial)),
                (Lh::BColor(0), Sv::Wide(Wide::Initial)),
                (Lh::BWidth(0), Sv::Wide(Wide::Initial)),
            ];
            let mut order = vec![0, 1, 2];
            for i in (1..3).rev() {
                let j = g.us(0, i);
                order.swap(i, j)
            }
            let n = g.us(1, 3);
            let mut t = String::new();
            for (i, k) in order[..n].iter().enumerate() {
                if i > 0 {
                    t.push_str(sp(g, wild))
                }
                let v = value_for(sets[*k].0, g);
                sets[*k].1 = v;
                t.push_str(&text_for(sets[*k].0, v, g, wild))
            }
            decl_from("border-top", &t, sets, imp, g, wild)
        }
        _ => {
            let v = if g.chance(15) { wide(g) } else { any_color(g) };
            let t = value_text(v, g, wild);
            decl_from("background", &t, vec![(Lh::Bg, v)], imp, g, wild)
        }
    }
}

// ---------------------------------------------------------------- sheets

pub enum Item {
    Rule(Rule, String),
    /// source that stands for nothing
    Nothing(String),
}

pub fn rule_text(r: &Rule, g: &mut G, wild: bool) -> String {
    let mut t = String::new();
    for (i, s) in r.selectors.iter().enumerate() {
        if i > 0 {
            t.push_str(ows(g, wild));
            t.push(',');
            t.push_str(ows(g, wild))
        }
        t.push_str(&sel::selector_text(s, g, wild))
    }
    t.push_str(ows(g, wild));
    t.push('{');
    t.push_str(&block_text(&r.decls, g, wild));
    t.push('}');
    t
}

/// Put rules in style elements, in order.
pub fn place_sheets(g: &mut G, doc: &mut Doc, rules: Vec<Rule>, wild: bool, next_id: &mut usize) {
    // Where the sheets end up in the tree decides the order of the rules
    let n = 1 + g.weighted(&[6, 3, 2, 1]);
    let mut sheets: Vec<Vec<Rule>> = (0..n).map(|_| vec![]).collect();
    for r in rules {
        let k = g.us(0, n - 1);
        sheets[k].push(r)
    }
    let mut texts: HashMap<usize, Vec<Rule>> = HashMap::new();
    for rules in sheets {
        let mut e = El::new("style");
        e.id = *next_id;
        *next_id += 1;
        let mut text = String::new();
        for r in &rules {
            text.push_str(ows(g, wild));
            text.push_str(&rule_text(r, g, wild));
            text.push_str(ows(g, wild));
        }
        let mut applies = true;
        match g.upto(19) {
            0 => e.attrs.push(("type".into(), "text/css".into())),
            1 => e.attrs.push(("type".into(), "Text/CSS".into())),
            2 => e.attrs.push(("type".into(), "".into())),
            3 => {
                e.attrs.push(("type".into(), (*g.pick(&["text/plain", "text/css2", "css", "text/less"])).into()));
                applies = false
            }
            _ => {}
        }
        if !text.is_empty() {
            e.children.push(Node::Text(text));
        }
        if applies {
            texts.insert(e.id, rules);
        }
        let head = g.chance(50);
        insert_anywhere(g, &mut doc.root, e, head)
    }
    let mut order = vec![];
    each_el(&mut doc.root, &mut |e| {
        if let Some(r) = texts.remove(&e.id) {
            order.extend(r)
        }
    });
    doc.rules.extend(order)
}

// ---------------------------------------------------------------- C15

fn no_decoration(_: &mut G, _: &mut El) {}

/// A base for every element that makes its box visible
fn visible(g: &mut G) -> Vec<Decl> {
    let c = color(g);
    vec![decl(Lh::Bg, Sv::Rgba(c), false, g, false)]
}

fn c15_doc(g: &mut G, four: bool) -> (Doc, u64) {
    let n = g.us(1, 9);
    let mut doc = Tree::new(g, n, no_decoration).doc();
    let mut attrs = HashMap::new();
    let mut next = 1000;
    let mut rules = vec![];
    let mut total = 0;
    let mut fours = 0;
    {
        let mut f = |e: &mut El| {
            if e.name == "head" {
                return;
            }
            let root = e.name == "html";
            g.span(|g| {
                let mut ds = visible(g);
                let n = g.weighted(&[3, 5, 5, 4, 3, 2, 1, 1]);
                for _ in 0..n {
                    let mut four = four;
                    let d = any_decl(g, true, 6, &mut four);
                    // (the display type of the root element is special)
                    if root && d.sets.iter().any(|s| s.0 == Lh::Display) {
                        continue;
                    }
                    fours += four as u64;
                    ds.push(d);
                    total += 1;
                }
                if g.chance(60) {
                    let t = block_text(&ds, g, true);
                    style_attr(e, &t);
                    attrs.insert(e.id, ds);
                } else {
                    let id = format!("e{}", e.id);
                    e.attrs.push(("id".into(), id.clone()));
                    rules.push(Rule { selectors: vec![Selector::simple(Simple::Id(id))], decls: ds })
                }
            })
        };
        each_el(&mut doc.root, &mut f);
    }
    doc.attrs = attrs;
    if !rules.is_empty() {
        place_sheets(g, &mut doc, rules, true, &mut next)
    }
    (doc, if four { fours } else { total })
}

fn c15(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (doc, n) = c15_doc(g, false);
    let html = html_text(&doc);
    if check_source(&doc, &html, false, cx, false)?.is_some() {
        cx.nontrivial = n >= 3
    }
    Ok(())
}

/// shorthands with four values, in which right and left are known to be exchanged
fn c15_four(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (mut doc, n) = c15_doc(g, true);
    let html = html_text(&doc);
    match check_source(&doc, &html, false, cx, false) {
        Ok(Some(_)) => {
            cx.nontrivial = n >= 1;
            Ok(())
        }
        Ok(None) => Ok(()),
        Err(f) => {
            // Is it that the second of four values was taken for the left side?
            let mut swapped = false;
            let mut swap = |d: &mut Decl| {
                if d.sets.len() == 4 && d.sets[1].1 != d.sets[3].1 {
                    swapped = true;
                    let (a, b) = (d.sets[1].1, d.sets[3].1);
                    d.sets[1].1 = b;
                    d.sets[3].1 = a
                }
            };
            for r in &mut doc.rules {
                r.decls.iter_mut().for_each(&mut swap)
            }
            for ds in doc.attrs.values_mut() {
                ds.iter_mut().for_each(&mut swap)
            }
            let mut cx2 = Cx::default();
            if swapped {
                match check_source(&doc, &html, false, &mut cx2, false) {
                    Ok(Some(_)) => return fail("four-values-left-right-swapped", f.msg),
                    // With this defect, it is outside of what the model defines
                    Ok(None) => {
                        cx.discarded = true;
                        return Ok(());
                    }
                    Err(_) => {}
                }
            }
            Err(f)
        }
    }
}

pub fn computed() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is a document whose elements have declarations of any supported property with values of every form; non-trivial if there are at least three (in `four-values`, one shorthand with four values)",
        assumptions: &[],
        parts: vec![part("values", 200_000, 3_000_000, c15), part("four-values", 20_000, 300_000, c15_four)],
    }
}

// ---------------------------------------------------------------- C13

const IDS: &[&str] = &["a", "b", "c"];
const CLASSES: &[&str] = &["x", "y", "z"];

fn decorate_simple(g: &mut G, e: &mut El) {
    if g.chance(40) {
        e.attrs.push(("id".into(), g.pick(IDS).to_string()))
    }
    if g.chance(60) {
        let n = g.us(1, 2);
        let c: Vec<&str> = (0..n).map(|_| *g.pick(CLASSES)).collect();
        e.attrs.push(("class".into(), c.join(" ")))
    }
    if g.chance(5) {
        e.attrs.push(("hidden".into(), String::new()))
    }
}

fn simple_selector(g: &mut G) -> Selector {
    let one = |g: &mut G| match g.weighted(&[5, 5, 4, 2, 1, 1]) {
        0 => Simple::Class(g.pick(CLASSES).to_string()),
        1 => Simple::Id(g.pick(IDS).to_string()),
        2 => Simple::Type(g.pick(&["div", "span", "em", "body", "html", "b", "section", "x-y"]).to_string()),
        3 => Simple::Univ,
        4 => Simple::Attr { name: "class".into(), op: Op::Exists, value: String::new(), flag: Flag::None },
        _ => Simple::Not(Box::new(Simple::Id(g.pick(IDS).to_string()))),
    };
    let compound = |g: &mut G| {
        let mut c = vec![one(g)];
        while g.chance(30) && c.len() < 3 {
            let s = one(g);
            if !matches!(s, Simple::Univ | Simple::Type(_)) {
                c.push(s)
            }
        }
        if g.chance(1) {
            // more classes than a digit, or a byte, can count
            let s = Simple::Class(g.pick(CLASSES).to_string());
            let n = if g.chance(70) { g.us(9, 20) } else { g.us(250, 300) };
            c.extend(std::iter::repeat(s).take(n))
        }
        c
    };
    let mut s = Selector { first: compound(g), rest: vec![] };
    while g.chance(25) && s.rest.len() < 2 {
        let comb = if g.chance(60) { Comb::Desc } else { Comb::Child };
        let c = compound(g);
        s.rest.push((comb, c))
    }
    s
}

/// Few properties, so that declarations compete
fn competing(g: &mut G, wild: bool) -> Decl {
    let imp = g.chance(25);
    if g.chance(12) {
        let f: fn(usize) -> Lh = *g.pick(&[Lh::Margin as fn(usize) -> Lh, Lh::Padding]);
        let name = if f(0) == Lh::Margin(0) { "margin" } else { "padding" };
        let v = if g.chance(25) { wide(g) } else { Sv::Px(px(g)) };
        let t = value_text(v, g, wild);
        return decl_from(name, &t, (0..4).map(|i| (f(i), v)).collect(), imp, g, wild);
    }
    let lh = match g.weighted(&[10, 5, 4, 4, 2, 3, 2]) {
        0 => Lh::Bg,
        1 => Lh::Color,
        2 => Lh::Padding(3),
        3 => Lh::Margin(0),
        4 => Lh::Width,
        5 => Lh::FontSize,
        _ => Lh::Display,
    };
    let v = match lh {
        _ if g.chance(12) => wide(g),
        Lh::Bg | Lh::Color => Sv::Rgba(color(g)),
        Lh::Display => Sv::Disp(*g.pick(&[Disp::Block, Disp::Inline, Disp::None, Disp::Block])),
        lh => value_for(lh, g),
    };
    decl(lh, v, imp, g, wild)
}

fn c13(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let n = g.us(2, 9);
    let mut doc = Tree::new(g, n, decorate_simple).doc();
    let mut next = 1000;
    // Elements with rules of the user agent, some of them important
    if g.chance(30) {
        let mut e = El::new("input");
        e.id = 900;
        let t = *g.pick(&["hidden", "HIDDEN", "Hidden", "text", "hidden2"]);
        e.attrs.push(("type".into(), t.into()));
        decorate_simple(g, &mut e);
        insert_anywhere(g, &mut doc.root, e, false)
    }
    if g.chance(20) {
        let mut e = El::new("title");
        e.id = 901;
        e.push(Node::Text("title".into()));
        insert_anywhere(g, &mut doc.root, e, true)
    }
    // Now and then many rules, many selectors in a list, or many declarations in a block
    let long = g.weighted(&[88, 6, 3, 3]);
    let n = if long == 1 { g.us(30, 110) } else { g.us(2, 12) };
    let many = if long > 1 { g.us(0, n - 1) } else { n };
    let mut rules: Vec<Rule> = vec![];
    for i in 0..n {
        let r = g.span(|g| {
            let k = if i == many && long == 2 { g.us(9, 70) } else { 1 + g.weighted(&[7, 2, 1]) };
            let selectors = (0..k).map(|_| simple_selector(g)).collect();
            let k = if i == many && long == 3 { g.us(20, 140) } else { 1 + g.weighted(&[5, 3, 2]) };
            Rule { selectors, decls: (0..k).map(|_| competing(g, false)).collect() }
        });
        rules.push(r)
    }
    if long > 0 {
        cx.label(["", "30 rules or more", "a long list of selectors", "a long block"][long])
    }
    if g.chance(15) {
        // make metadata visible
        let names: Vec<&str> = vec!["head", "title", "style"];
        let selectors = names[..g.us(1, 3)].iter().map(|n| Selector::simple(Simple::Type(n.to_string()))).collect();
        let imp = g.chance(30);
        rules.push(Rule { selectors, decls: vec![decl(Lh::Display, Sv::Disp(Disp::Block), imp, g, false)] })
    }
    let shown = g.us(0, 3);
    let bg = color(g);
    rules.insert(
        0,
        Rule { selectors: vec![Selector::simple(Simple::Univ)], decls: vec![decl(Lh::Bg, Sv::Rgba(bg), shown == 0, g, false)] },
    );
    // the display type of the root element is special: leave it alone
    let displays = |d: &Decl| d.sets.iter().any(|s| s.0 == Lh::Display);
    for r in &mut rules {
        let root = [(&doc.root, 0)];
        if r.decls.iter().any(displays) && r.selectors.iter().any(|s| sel::matches(s, &root)) {
            r.decls.retain(|d| !displays(d))
        }
    }
    place_sheets(g, &mut doc, rules, false, &mut next);
    let xml = g.chance(20);
    if xml {
        cx.label("XML");
        each_el(&mut doc.root, &mut |e| {
            e.xml = true;
            if e.name == "style" && g.chance(40) {
                split_sheet(g, e, &mut next)
            }
        })
    }
    let mut attrs = HashMap::new();
    let root = doc.root.id;
    each_el(&mut doc.root, &mut |e| {
        if e.name != "head" && g.chance(30) {
            let n = g.us(1, 3);
            let mut ds: Vec<Decl> = (0..n).map(|_| competing(g, false)).collect();
            if e.id == root {
                ds.retain(|d| !displays(d))
            }
            let t = block_text(&ds, g, false);
            style_attr(e, &t);
            attrs.insert(e.id, ds);
        }
    });
    doc.attrs = attrs;
    for r in &mut doc.rules {
        let displays = r.decls.iter().any(|d| d.sets.iter().any(|s| s.0 == Lh::Display));
        let root = [(&doc.root, 0)];
        if displays && r.selectors.iter().any(|s| sel::matches(s, &root)) {
            cx.discarded = true;
            cx.label("discard: display of the root element");
            return Ok(());
        }
    }
    if doc.attrs.get(&doc.root.id).map_or(false, |ds| ds.iter().any(|d| d.sets.iter().any(|s| s.0 == Lh::Display))) {
        cx.discarded = true;
        cx.label("discard: display of the root element");
        return Ok(());
    }
    let mut source = String::new();
    if xml {
        dom::xml(&doc.root, &mut source, true)
    } else {
        source = html_text(&doc)
    }
    if check_source(&doc, &source, xml, cx, false)?.is_some() {
        // Declarations that compete for the same property of the same element
        let mut contested = 0;
        for p in all_paths(&doc.root) {
            let el = p[p.len() - 1].0;
            let mut seen: HashMap<Lh, u64> = HashMap::new();
            let mut count = |ds: &[Decl]| {
                for d in ds {
                    for s in &d.sets {
                        *seen.entry(s.0).or_insert(0) += 1
                    }
                }
            };
            for r in &doc.rules {
                if r.selectors.iter().any(|s| sel::matches(s, &p)) {
                    count(&r.decls)
                }
            }
            if let Some(ds) = doc.attrs.get(&el.id) {
                count(ds)
            }
            contested += seen.values().filter(|n| **n >= 2).count()
        }
        cx.count("contested properties of elements", contested as u64);
        cx.nontrivial = contested >= 3
    }
    Ok(())
}

pub fn cascade() -> Prop {
    Prop {
        id: "C13",
        rule: "a case is a document with style sheets and style attributes; non-trivial if several declarations compete for at least three properties of elements",
        assumptions: &["only the author and user agent origins exist"],
        parts: vec![part("cascade", 180_000, 2_000_000, c13)],
    }
}

// ---------------------------------------------------------------- C14

const SEL_IDS: &[&str] = &["a", "A", "b", "1x", "é", "-z", "a.b", " a", "a "];
const SEL_CLASSES: &[&str] = &["x", "X", "y", "foo", "foo-bar", "2", "a:b", "--", "x\u{a0}y", "y\u{2003}"];
const SEL_ATTRS: &[&str] = &["title", "lang", "data-x", "align", "rel", "foo"];
const SEL_VALUES: &[&str] = &["", "a", "A", "en", "en-US", "EN", "foo bar", "bar", "foo", "a\"b", "x-", "é", "-", "a\nb"];

fn decorate_rich(g: &mut G, e: &mut El) {
    if g.chance(35) {
        e.attrs.push(("id".into(), g.pick(SEL_IDS).to_string()))
    }
    if g.chance(60) {
        let n = g.us(1, 3);
        let mut t = String::new();
        if g.chance(20) {
            t.push_str(" ")
        }
        for i in 0..n {
            if i > 0 {
                t.push_str(*g.pick(&[" ", " ", "  ", "\t", "\n", "\x0c"]))
            }
            t.push_str(*g.pick(SEL_CLASSES))
        }
        if g.chance(20) {
            t.push_str(" ")
        }
        e.attrs.push(("class".into(), t))
    }
    for a in SEL_ATTRS {
        if g.chance(15) {
            e.attrs.push((a.to_string(), g.pick(SEL_VALUES).to_string()))
        }
    }
}

/// The same for XML, where names may be in any case, and attributes in a namespace
fn decorate_xml(g: &mut G, e: &mut El) {
    decorate_rich(g, e);
    if g.chance(20) && NAMES.contains(&&*e.name) {
        e.name = match g.upto(1) {
            0 => e.name.to_ascii_uppercase(),
            _ => e.name[..1].to_ascii_uppercase() + &e.name[1..],
        }
    }
    for a in &mut e.attrs {
        if g.chance(8) && a.0 != "id" && a.0 != "class" {
            a.0 = a.0.to_ascii_uppercase()
        }
    }
    let names = ["id", "class", "title", "lang", "data-x", "foo"];
    for a in &names {
        if g.chance(12) {
            let p = *g.pick(&["x", "x", "y"]);
            let k = g.us(0, e.attrs.len());
            if !e.attrs.iter().any(|x| x.0 == format!("{}:{}", p, a)) {
                e.attrs.insert(k, (format!("{}:{}", p, a), g.pick(SEL_VALUES).to_string()))
            }
        }
    }
    for a in &mut e.attrs {
        // not a character of XML
        a.1 = a.1.replace('\x0c', "\t")
    }
}

/// A simple selector that this element matches, most of the time
fn simple_for(g: &mut G, path: &Path) -> Simple {
    let e = path[path.len() - 1].0;
    if g.chance(12) {
        // something unrelated
        return match g.upto(3) {
            0 => Simple::Class(g.pick(SEL_CLASSES).to_string()),
            1 => Simple::Id(g.pick(SEL_IDS).to_string()),
            2 => Simple::Attr {
                name: g.pick(SEL_ATTRS).to_string(),
                op: *g.pick(&[Op::Eq, Op::Includes, Op::Dash, Op::Prefix, Op::Suffix, Op::Sub]),
                value: g.pick(SEL_VALUES).to_string(),
                flag: *g.pick(&[Flag::None, Flag::None, Flag::I]),
            },
            _ => Simple::Not(Box::new(Simple::Class(g.pick(SEL_CLASSES).to_string()))),
        };
    }
    match g.weighted(&[3, 5, 5, 8, 8, 8, 3]) {
        0 => Simple::Univ,
        1 => match e.attr("id") {
            Some(i) => Simple::Id(i.into()),
            None => Simple::Not(Box::new(Simple::Id(g.pick(SEL_IDS).to_string()))),
        },
        2 => match e.attr("class") {
            Some(c) if c.split_whitespace().next().is_some() => {
                let cs: Vec<&str> = c.split_whitespace().collect();
                Simple::Class(g.pick(&cs).to_string())
            }
            _ => Simple::Not(Box::new(Simple::Attr { name: "class".into(), op: Op::Exists, value: String::new(), flag: Flag::None })),
        },
        3 => {
            let attrs: Vec<_> = e.attrs.iter().filter(|a| a.0 != "style").collect();
            if attrs.is_empty() {
                return Simple::Not(Box::new(Simple::Attr {
                    name: g.pick(SEL_ATTRS).to_string(),
                    op: Op::Exists,
                    value: String::new(),
                    flag: Flag::None,
                }));
            }
            let (name, v) = (*g.pick(&attrs)).clone();
            let chars: Vec<char> = v.chars().collect();
            let n = chars.len();
            let op = *g.pick(&[Op::Exists, Op::Eq, Op::Includes, Op::Dash, Op::Prefix, Op::Suffix, Op::Sub]);
            let mut value: String = match op {
                Op::Exists => String::new(),
                Op::Eq => v.clone(),
                Op::Includes => {
                    let ws: Vec<&str> = v.split_whitespace().collect();
                    if ws.is_empty() {
                        v.clone()
                    } else {
                        g.pick(&ws).to_string()
                    }
                }
                Op::Dash => v.split('-').next().unwrap().to_string(),
                Op::Prefix => chars[..g.us(0, n)].iter().collect(),
                Op::Suffix => chars[g.us(0, n)..].iter().collect(),
                Op::Sub => {
                    let a = g.us(0, n);
                    let b = g.us(a, n);
                    chars[a..b].iter().collect()
                }
            };
            if g.chance(15) {
                value = value.to_ascii_uppercase()
            }
            let name = match name.find(':') {
                Some(i) if g.chance(70) => format!("*|{}", &name[i + 1..]),
                Some(i) => name[i + 1..].to_string(),
                None if g.chance(5) => format!("*|{}", name),
                None if g.chance(5) => format!("|{}", name),
                None => sel::case(&name, g, true),
            };
            // several characters of the attribute text may be CSS white space
            let flag = *g.pick(&[Flag::None, Flag::None, Flag::None, Flag::I, Flag::S]);
            Simple::Attr { name, op, value, flag }
        }
        4 => {
            let all = [Simple::First, Simple::Last, Simple::Only, Simple::FirstT, Simple::LastT, Simple::OnlyT, Simple::Root, Simple::Scope, Simple::Empty];
            let good: Vec<&Simple> = all.iter().filter(|s| sel::matches_simple(s, path)).collect();
            if good.is_empty() {
                Simple::Not(Box::new(g.pick(&all).clone()))
            } else {
                (*g.pick(&good)).clone()
            }
        }
        5 => {
            let (last, of_type) = (g.chance(50), g.chance(40));
            // a*n + b is its position for some n, or about that
            let p = (1..20).find(|p| sel::matches_simple(&Simple::Nth { a: 0, b: *p, last, of_type }, path)).unwrap_or(1);
            let a = g.int(-4, 4) as i32;
            let n = g.int(0, 3) as i32;
            let b = p - a * n + if g.chance(15) { g.int(-1, 1) as i32 } else { 0 };
            Simple::Nth { a, b, last, of_type }
        }
        _ => Simple::Not(Box::new(Simple::Type(g.pick(NAMES).to_string()))),
    }
}

fn compound_for(g: &mut G, path: &Path) -> Vec<Simple> {
    let mut c = vec![];
    if g.chance(40) {
        let name = &path[path.len() - 1].0.name;
        c.push(Simple::Type(sel::case(name, g, true)))
    }
    while c.is_empty() || (g.chance(35) && c.len() < 4) {
        let s = simple_for(g, path);
        if c.is_empty() || !matches!(s, Simple::Univ) {
            c.push(s)
        }
    }
    c
}

/// a selector that this element matches, most of the time
fn selector_for(g: &mut G, path: &Path) -> Selector {
    let mut compounds = vec![compound_for(g, path)];
    let mut combs = vec![];
    let mut p = path.to_vec();
    while g.chance(50) && compounds.len() < 4 {
        let last = p[p.len() - 1];
        let before: Vec<(&El, usize)> = if p.len() < 2 {
            vec![]
        } else {
            p[p.len() - 2]
                .0
                .children
                .iter()
                .enumerate()
                .filter_map(|(i, c)| match c {
                    Node::El(e) if i < last.1 => Some((e, i)),
                    _ => None,
                })
                .collect()
        };
        if !before.is_empty() && g.chance(50) {
            p.pop();
            if g.chance(50) {
                p.push(before[before.len() - 1]);
                combs.push(Comb::Next)
            } else {
                p.push(*g.pick(&before));
                combs.push(Comb::Later)
            }
        } else if p.len() >= 2 {
            if g.chance(50) {
                p.pop();
                combs.push(Comb::Child)
            } else {
                let n = g.us(1, p.len() - 1);
                p.truncate(n);
                combs.push(Comb::Desc)
            }
        } else {
            break;
        }
        if g.chance(8) {
            let k = combs.len() - 1;
            combs[k] = *g.pick(&[Comb::Child, Comb::Desc, Comb::Next, Comb::Later])
        }
        compounds.push(compound_for(g, &p))
    }
    compounds.reverse();
    combs.reverse();
    let mut it = compounds.into_iter();
    let first = it.next().unwrap();
    Selector { first, rest: combs.into_iter().zip(it).collect() }
}

/// Comments and texts between, before and after elements, in any number
fn noise(g: &mut G, e: &mut El) {
    if e.name == "html" || e.name == "head" {
        // (text would go elsewhere)
        let k = g.us(0, e.children.len());
        e.children.insert(k, Node::Comment("c".into()))
    } else if g.chance(25) {
        let k = g.us(0, e.children.len());
        let n = g.us(1, 8);
        for i in 0..n {
            let n = if i % 2 == 0 { Node::Comment("c".into()) } else { Node::Text(g.pick(&["\n", " ", "t"]).to_string()) };
            e.children.insert(k, n)
        }
    }
    for c in &mut e.children {
        if let Node::El(e) = c {
            noise(g, e)
        }
    }
}

const SVG_NAMES: &[&str] = &["g", "linearGradient", "foreignObject", "rect", "textPath", "foreignObject", "G-X"];

/// Some elements are in the SVG namespace, where the case of names matters in HTML documents as well
fn some_svg(g: &mut G, e: &mut El, inside: bool) {
    if inside {
        e.name = g.pick(SVG_NAMES).to_string();
        if e.name == "G-X" {
            // (not adjusted by the parser)
            e.name = "g-x".into()
        }
        e.xml = true
    } else if g.chance(20) && e.name != "html" && e.name != "body" && e.name != "head" {
        e.name = "svg".into();
        e.xml = true
    }
    let inside = e.xml && e.name != "foreignObject";
    for c in &mut e.children {
        if let Node::El(e) = c {
            some_svg(g, e, inside)
        }
    }
}

/// The kinds of simple selectors and combinators in a selector, as a set
fn kinds(s: &Selector) -> u32 {
    fn simple(s: &Simple) -> u32 {
        1 << match s {
            Simple::Univ => 0,
            Simple::Type(_) => 1,
            Simple::Id(_) => 2,
            Simple::Class(_) => 3,
            Simple::Attr { op: Op::Exists, .. } => 4,
            Simple::Attr { op: Op::Eq, .. } => 5,
            Simple::Attr { .. } => 6,
            Simple::First | Simple::Last | Simple::Only => 7,
            Simple::FirstT | Simple::LastT | Simple::OnlyT => 8,
            Simple::Root | Simple::Scope => 9,
            Simple::Empty => 10,
            Simple::Nth { of_type: false, last: false, .. } => 11,
            Simple::Nth { of_type: false, last: true, .. } => 12,
            Simple::Nth { .. } => 13,
            Simple::Not(_) => 14,
        }
    }
    let mut k = 0;
    let mut compound = |c: &[Simple]| {
        for s in c {
            k |= simple(s);
            if let Simple::Not(s) = s {
                k |= simple(s)
            }
        }
    };
    compound(&s.first);
    for (_, c) in &s.rest {
        compound(c)
    }
    for (c, _) in &s.rest {
        k |= match c {
            Comb::Desc | Comb::Child => 1 << 15,
            Comb::Next => 1 << 16,
            Comb::Later => 1 << 17,
        }
    }
    k
}

/// Some siblings get the name and the attributes of the one before
fn alike(g: &mut G, e: &mut El) {
    let mut last: Option<(String, Vec<(String, String)>)> = None;
    for c in &mut e.children {
        if let Node::El(c) = c {
            if c.name == "head" || c.name == "body" || c.name == "html" {
                alike(g, c);
                continue;
            }
            if let (Some((name, attrs)), true) = (&last, g.chance(50)) {
                c.name = name.clone();
                c.attrs = attrs.clone();
            }
            last = Some((c.name.clone(), c.attrs.clone()));
            alike(g, c)
        }
    }
}

/// In XML, comments and elements can be anywhere in a style sheet
fn split_sheet(g: &mut G, e: &mut El, next_id: &mut usize) {
    let mut rest = match e.children.pop() {
        Some(Node::Text(t)) => t,
        Some(n) => return e.children.push(n),
        None => return,
    };
    for _ in 0..g.us(1, 3) {
        let mut at = g.us(0, rest.len());
        while !rest.is_char_boundary(at) {
            at -= 1
        }
        let piece: String = rest.drain(..at).collect();
        if !piece.is_empty() {
            e.children.push(Node::Text(piece))
        }
        if g.chance(50) {
            // what is inside of elements does not count
            let mut inner = El::new("b");
            inner.id = *next_id;
            *next_id += 1;
            inner.xml = true;
            inner.children.push(Node::Text("* { color: lime } /*".into()));
            e.children.push(Node::El(inner))
        } else {
            // comments between pieces of it are not there for CSS
            e.children.push(Node::Comment((*g.pick(&[" c ", "", "* { color: lime }", "/*"])).into()))
        }
    }
    if !rest.is_empty() {
        e.children.push(Node::Text(rest))
    }
}

fn c14_html(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    c14(g, cx, false)
}
fn c14_xml(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    c14(g, cx, true)
}
fn c14(g: &mut G, cx: &mut Cx, xml: bool) -> Result<(), Fail> {
    let n = g.us(2, 12);
    let mut t = Tree::new(g, n, if xml { decorate_xml } else { decorate_rich });
    t.empty = 30;
    let mut doc = t.doc();
    if g.chance(40) {
        noise(g, &mut doc.root)
    }
    // Siblings that only structure tells apart
    if g.chance(30) {
        alike(g, &mut doc.root)
    }
    if xml {
        each_el(&mut doc.root, &mut |e| e.xml = true)
    } else if g.chance(25) {
        some_svg(g, &mut doc.root, false)
    }
    g.exact_case = true;
    let mut rules = vec![Rule {
        selectors: vec![Selector::simple(Simple::Univ)],
        decls: vec![
            decl(Lh::Padding(0), Sv::Px(5.), false, g, false),
            decl(Lh::Bg, Sv::Rgba([250, 250, 250, 255]), false, g, false),
        ],
    }];
    if g.chance(60) {
        // no inline boxes
        let t = ["span", "em", "b", "x-y", "section"];
        rules.push(Rule {
            selectors: t.iter().map(|t| Selector::simple(Simple::Type(t.to_string()))).collect(),
            decls: vec![decl(Lh::Display, Sv::Disp(Disp::Block), false, g, false)],
        })
    }
    // Sheets where some kinds of selectors do not occur at all: what the sheet says about others is not lost
    let avoid = if g.chance(40) { g.int(1, (1 << 18) - 1) as u32 & g.int(0, (1 << 18) - 1) as u32 | g.int(0, (1 << 18) - 1) as u32 } else { 0 };
    let n = g.us(1, 6);
    let paths = all_paths(&doc.root);
    let longhands = [Lh::Bg, Lh::Color, Lh::Padding(3), Lh::Padding(2), Lh::Margin(3), Lh::FontSize];
    let values = [Sv::Rgba([255, 0, 0, 255]), Sv::Rgba([0, 0, 255, 255]), Sv::Px(7.), Sv::Px(11.), Sv::Px(13.), Sv::Px(30.)];
    let mut interesting = 0;
    for i in 0..n {
        g.span(|g| {
            let k = 1 + g.weighted(&[8, 2, 1]);
            let selectors: Vec<Selector> = (0..k)
                .map(|_| {
                    let p = g.pick(&paths[..]).clone();
                    for _ in 0..if avoid == 0 { 1 } else { 12 } {
                        let s = selector_for(g, &p);
                        if kinds(&s) & avoid == 0 {
                            return s;
                        }
                    }
                    Selector::simple(Simple::Type(p[p.len() - 1].0.name.clone()))
                })
                .collect();
            let matching = paths.iter().filter(|p| selectors.iter().any(|s| sel::matches(s, p))).count();
            cx.count("selector lists", 1);
            if matching > 0 && matching < paths.len() {
                interesting += 1;
                cx.count("selector lists that match some elements only", 1)
            }
            rules.push(Rule { selectors, decls: vec![decl(longhands[i], values[i], false, g, false)] })
        })
    }
    drop(paths);
    // (one sheet, in the head, where no generated selector depends on it being there)
    let mut e = El::new("style");
    e.id = 1000;
    let text: String = rules.iter().map(|r| rule_text(r, g, !xml)).collect();
    e.children.push(Node::Text(text));
    if xml && g.chance(25) {
        split_sheet(g, &mut e, &mut 1001)
    }
    e.xml = xml;
    for c in &mut doc.root.children {
        if let Node::El(head) = c {
            head.children.push(Node::El(e));
            break;
        }
    }
    doc.rules = rules;
    let around = |g: &mut G| g.chance(15);
    let (before, after) = (around(g), around(g));
    let text = if xml {
        let mut t = String::new();
        if before {
            t.push_str("<!-- before --><?x y?>")
        }
        doc.root.attrs.insert(0, ("xmlns:x".into(), "urn:x".into()));
        doc.root.attrs.push(("xmlns:y".into(), "urn:y".into()));
        dom::xml(&doc.root, &mut t, true);
        doc.root.attrs.remove(0);
        doc.root.attrs.pop();
        if after {
            t.push_str("<!-- after --><?x y?>\n<!-- -->")
        }
        t
    } else {
        let mut t = html_text(&doc);
        if after {
            t.push_str("<!-- after --><!-- -->")
        }
        if before {
            t.replacen("<html", "<!-- before --><html", 1)
        } else {
            t
        }
    };
    if check_source(&doc, &text, xml, cx, false)?.is_some() {
        cx.nontrivial = interesting >= 2
    }
    Ok(())
}

pub fn selectors() -> Prop {
    Prop {
        id: "C14",
        rule: "a case is a document with 1 to 6 rules of generated selectors; non-trivial if at least two of their selector lists match some of the elements, but not all",
        assumptions: &["documents in no-quirks mode"],
        parts: vec![part("selectors", 150_000, 2_000_000, c14_html), part("xml", 90_000, 1_500_000, c14_xml)],
    }
}

// ---------------------------------------------------------------- C12

/// invalid values, by property
const BAD_VALUES: &[(&str, &[&str])] = &[
    ("color", &["12", "reddish", "#ab", "#abcde", "#ggg", "rgb(1,2)", "rgb(1 2,3)", "rgb(1,2,3,4,5)", "rgb(red)", "hsl(red)", "auto", "red blue", "\"red\"", "1px", "none", "red()", "rgb 1 2 3", "(red)", "[red]", "{red}"]),
    ("background-color", &["12", "red blue", "#12345", "none", "url(x)", "auto", "red, blue", "url(a b)"]),
    ("background", &["12", "red blue", "auto", "#1", "1px"]),
    ("width", &["0.5", "-0.5", ".01", "1e-4", "-1e-9px", "10", "red", "auto auto", "-1px", "-1em", "-5%", "1px/2px", "1 px", "+-1px", "1pxx", "1e", "1px 2px", "\"1px\"", "none1", "#fff", "1xp", "--1px", "inherit auto", "auto inherit", "initial initial"]),
    ("height", &["0.9", "-.1", "10", "-1px", "-0.5em", "-1%", "%", "1 %", "1%%", "px", "auto 1px", "1px auto", "1.px", "1..5px"]),
    ("font-size", &["0.5", ".1", "10", "-1px", "-1em", "auto", "1px 2px", "1", "big"]),
    ("margin", &["0.5", "1px 0.25", "-0.5", "1px 2px 3px 4px 5px", "1px, 2px", "inherit 1px", "1px initial", "5", "1px/1px", "none", "1px unset 1px 1px", "auto auto auto auto auto", "red"]),
    ("margin-left", &["0.75", "-0.1", "1", "1px 1px", "none", "red", "1 px", "1px!"]),
    ("padding", &["0.5", "0 0.5", "-0.001px", "-1px", "1px -1px", "auto", "1px 2px 3px 4px 5px", "1px 2px 3px -4px", "5", "1px,1px", "inherit inherit"]),
    ("padding-left", &["0.3", "-1e-5em", "auto", "-1px", "-2%", "1", "1px 1px", "-1em"]),
    ("border-top-width", &["0.5", "-0.1px", "auto", "-1px", "-1em", "red", "thin thick", "thinn", "1", "solid", "5%", "150%", "0%"]),
    ("border-right-width", &["20%", "none", "1", "2px 2px", "hidden", "#123"]),
    ("float", &["top", "none left", "5px", "center", "lef", "0", "block", "both"]),
    ("bottom", &["solid", "1", "5% 5%", "5 %", "medium"]),
    ("border-width", &["-1px", "1px 5%", "50%", "5% 1px 1px", "thin -1px", "thin medium thick thin thin", "1", "auto"]),
    ("border-style", &["solid solid none none none", "1px", "solid red", "solidd", "solid, none"]),
    ("border-top-style", &["solid none", "red", "1px", "0"]),
    ("border-color", &["red red red red red", "1px", "red, blue", "solid"]),
    ("border-top", &["solid 10%", "10% solid red", "solid solid", "1px 2px", "inherit solid", "solid unset", "solid red 1px 1px", "solid red red", "auto", "-1px solid", "solid -1px"]),
    ("display", &["blok", "none none", "1", "inline, block", "display", "\"none\"", "none none none", "-none", "none-"]),
    ("position", &["0", "absolute relative", "abs", "left"]),
    ("top", &["0.5", "-0.5", ".999999", "5", "1px 2px", "red", "none", "1", "- 1px"]),
];

const UNKNOWN: &[&str] = &[
    "colr: red", "-x-color: red", "--custom: {a;b}", "--c: red", "margin-: 1px", "-margin: 50px", "wdth: 5px", "*zoom: 1",
    "padding-lef: 30px", "color-x: red", "x: y", "backgroundcolor: red", "border-left-colour: red", "back\\aground: red",
    "display2: none", "paddin: 30px", "Margin-: 30px", "padding_left: 30px", "ｃolor: red",
];
const BROKEN: &[&str] = &[
    "color", "color red", "color red blue", ": red", "color:: red", "color: red: blue", "color:", "color: !important",
    "color: red !imp", "color: red !", "color: red !important x", "color: red !important !important", "!important",
    "1px", "\"color: red\"", "color: red)", "color: red]", "(color: red)", "[color: red]", "color: [red", 
    "{color: red}", "color {color: red}", "color: {color: red; width: 1px}", "foo(color: red; color: blue)",
    "color: rgb(1,2,3;4)", "background: url(a b; c)", "color: \"a;b\"", "color: \"red\nblue", "color: 'x;y\nz",
    "@foo", "@foo bar", "@foo (;) x", "@media", "@foo { color: red }", "@foo bar {; color: red; }", "#color: red", ".color: red",
    "color/: red", "color: red/", "color: red,", "color,: red", "color: , red", "$color: red", "color\\: red", "color&: red",
    "& {color: red}", "color: red !ie", "width: calc(1px; 2px)", "%: red", "<!-- color: red", "color: red -->", "-->",
    "<!--", "color: red <!-- -->", "a{b{c;d}e;f}g: h", "color: \\", "url(x): red", "u+1: red", "5: 6", "|x: y", "~", "/ /",
];

fn bad_value(g: &mut G) -> (String, String) {
    let (name, values) = g.pick(BAD_VALUES);
    let v = g.pick(*values);
    (name.to_string(), v.to_string())
}

/// Declarations that are not valid: each stands for nothing
fn bad_decl(g: &mut G, in_block: bool) -> String {
    let close = |t: String| {
        // unmatched opening brackets would take the rest with them
        let mut t = t;
        if t == "color: [red" {
            t.push(']')
        }
        if t.ends_with('\\') {
            t.push('x')
        }
        t
    };
    match g.weighted(&[6, 2, 5, 2]) {
        0 => {
            let (n, v) = bad_value(g);
            let d = decl_from(&n, &v, vec![], false, g, true);
            let imp = if g.chance(15) { " !important" } else { "" };
            if imp.is_empty() || v.contains(';') {
                d.text
            } else {
                format!("{}{}", d.text, imp)
            }
        }
        1 => {
            let t = g.pick(UNKNOWN).to_string();
            if g.chance(20) {
                format!("{} ! important", t)
            } else {
                t
            }
        }
        2 => {
            let t = g.pick(BROKEN).to_string();
            close(t)
        }
        _ => {
            // a valid declaration, with something more
            let mut four = false;
            let mut d = any_decl(g, true, 20, &mut four).text;
            let extra = *g.pick(&["x", "1px x", ":", "()", "{}", "[;]", "!", "}", "/", "\"\"", "#", "@x", ";x"]);
            let extra = if extra == "}" && in_block { "-->" } else { extra };
            if extra == ";x" {
                return format!(":{}", d);
            }
            d.push(' ');
            d.push_str(extra);
            d
        }
    }
}

/// Valid declarations and others; returns the text and the valid ones
fn mixed_block(g: &mut G, in_block: bool, base: Vec<Decl>, bad: &mut u64) -> (String, Vec<Decl>) {
    let mut text = String::new();
    let mut ds: Vec<Decl> = base;
    let n = g.us(0, 4);
    for _ in 0..n {
        let mut four = false;
        ds.push(any_decl(g, true, 6, &mut four))
    }
    let mut first = true;
    for d in &ds {
        while g.chance(40) {
            if !first {
                text.push(';')
            }
            first = false;
            let t = g.span(|g| bad_decl(g, in_block));
            *bad += 1;
            text.push_str(&t)
        }
        if !first {
            text.push(';')
        }
        first = false;
        text.push_str(ows(g, true));
        text.push_str(&d.text);
        if g.chance(5) {
            text.push_str(";;")
        }
    }
    while g.chance(30) {
        *bad += 1;
        text.push(';');
        text.push_str(&bad_decl(g, in_block))
    }
    if g.chance(50) {
        text.push(';')
    }
    (text, ds)
}

const BAD_RULES: &[&str] = &[
    "div:foo {B}", "..a {B}", "# {B}", "#1 {B}", ". {B}", "div > {B}", "> div {B}", "+ div {B}", "div,,em {B}", "div, {B}", ", div {B}",
    "div >> div {B}", "div > > em {B}", "{B}", "[a {B}] {B}", "(x;y) {B}", "div:not() {B}", "div:not(em {B}", ":nth-child(foo) {B}",
    ":nth-child(2n+) {B}", ":nth-child(n 1) {B}", ":nth-child() {B}", "x|div {B}", "div::bogus {B}", "div, em:foo {B}", "em::foo, div {B}",
    "div; {B}", "color: red; div {B}", "} div {B}", ") div {B}", "] {B}", "!important {B}", "div ! {B}", "\"div\" {B}", "div \"em\" {B}",
    "div:: {B}", "div: {B}", "div :  first-child {B}", "[] {B}", "[=a] {B}", "[a=] {B}", "[a=b c] {B}", "[a ^ =b] {B}", "[1a] {B}",
    "[a=1x] {B}", "[a==b] {B}", "[a='b' x] {B}", "50% {B}", "@ {B}", "div @foo {B}", "& div {B}", "div & {B}", "$x {B}",
    "div / em {B}", "**{B}", "div*{B}", "*div\\\n{B}", ".5x {B}", "#a#b: {B}", "div:first {B}", "div:nth-child {B}", ":not {B}",
];
const AT_RULES: &[&str] = &[
    "@foo;", "@foo {}", "@foo bar { div { color: red } }", "@foo { B } ", "@foo [;] (}) x { B }", "@charset \"x\";", "@font-face { B }",
    "@foo \"{\" ;", "@foo {{B}{B}}", "@-x-media all { div { B } }", "@foo url(x;y);", "@foo 'a;b';", "@foo /* ; */ ;", "<!--", "-->", "<!-- -->",
    "@media speech { div { B } em { B } }", "@foo{div{B}}",
];

fn bad_rule(g: &mut G) -> String {
    let b = *g.pick(&[
        "display: none", "color: red; display: none !important", "padding: 50px", "margin: 33px; ; x", "background: teal !important", "color: rgb(1,2,3",
        "width: 1px; a { b: c } height: 3px",
    ]);
    let t = if g.chance(25) { *g.pick(AT_RULES) } else { *g.pick(BAD_RULES) };
    let balanced = if b.ends_with(",3") { "color: rgb(1,2,3)" } else { b };
    let mut t = t.replace('B', balanced);
    if t.starts_with("div; {") || t.starts_with("} div") {
        t = t.replace("; ;", ";")
    }
    // (an unmatched bracket would take the following rules with it)
    if t.contains(":not(em {") {
        t = t.replace(":not(em {", ":not(em) (x) {")
    }
    t
}

fn c12(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let n = g.us(1, 6);
    let mut doc = Tree::new(g, n, no_decoration).doc();
    let mut attrs = HashMap::new();
    let mut bad = 0;
    let mut items: Vec<Item> = vec![];
    each_el(&mut doc.root, &mut |e| {
        if e.name == "head" {
            return;
        }
        let root = e.name == "html";
        g.span(|g| {
            let attr = g.chance(50);
            let base = visible(g);
            let (text, ds) = loop {
                let (text, ds) = mixed_block(g, !attr, base.clone(), &mut bad);
                if root && ds.iter().any(|d| d.sets.iter().any(|s| s.0 == Lh::Display)) {
                    continue;
                }
                break (text, ds);
            };
            if attr {
                let mut text = text;
                if g.chance(10) {
                    // closed by the end of the attribute
                    let t = *g.pick(&["; x: (", "; /* color: red", "; color: \"x", "; foo [ {", "; @x {", "; background: url(", "; color: red !important x(", ";color:red\\"]);
                    text.push_str(t);
                    bad += 1
                }
                style_attr(e, &text);
                attrs.insert(e.id, ds);
            } else {
                let id = format!("e{}", e.id);
                e.attrs.push(("id".into(), id.clone()));
                let r = Rule { selectors: vec![Selector::simple(Simple::Id(id.clone()))], decls: ds };
                items.push(Item::Rule(r, format!("#{}{}{{{}}}", id, ows(g, true), text)))
            }
        })
    });
    doc.attrs = attrs;
    let sheets = g.us(1, 2);
    for k in 0..sheets {
        let rest = items.split_off(if k + 1 == sheets { items.len() } else { items.len() / 2 });
        let mine = std::mem::replace(&mut items, rest);
        let mut text = String::new();
        let garbage = |g: &mut G, text: &mut String, bad: &mut u64| {
            while g.chance(35) {
                text.push_str(ows(g, true));
                let t = g.span(bad_rule);
                *bad += 1;
                text.push_str(&t);
                // (CDO and CDC after the start of a rule would be part of it)
                text.push_str(ows(g, true))
            }
        };
        for i in mine {
            garbage(g, &mut text, &mut bad);
            if let Item::Rule(r, t) = i {
                text.push_str(&t);
                doc.rules.push(r)
            }
        }
        match g.upto(5) {
            // The end of the sheet closes everything
            0 if text.ends_with('}') => {
                let t = text.clone();
                if !t.contains("<!--") {
                    if g.chance(30) {
                        let c = color(g);
                        let v = format!("rgba({}, {}, {}, 1", c[0], c[1], c[2]);
                        let c = [c[0], c[1], c[2], 255];
                        text.push_str("*{border-bottom-color:");
                        text.push_str(&v);
                        doc.rules.push(Rule {
                            selectors: vec![Selector::simple(Simple::Univ)],
                            decls: vec![Decl { text: String::new(), sets: vec![(Lh::BColor(2), Sv::Rgba(c))], important: false }],
                        });
                    } else {
                        let w = px(g);
                        let d = decl(Lh::Padding(1), Sv::Px(w), false, g, true);
                        text.push_str("body, div{");
                        text.push_str(&d.text);
                        text.push_str(*g.pick(&["", ";", "/* }", ";x:(", "; x: 'a}", ";}\\\\", ";@a{b}"]));
                        doc.rules.push(Rule {
                            selectors: ["body", "div"].iter().map(|t| Selector::simple(Simple::Type(t.to_string()))).collect(),
                            decls: vec![d],
                        })
                    }
                    bad += 1
                }
            }
            1 => {
                text.push_str(*g.pick(&["div", "@foo", "div:not(", "\"", "/*", "@foo {", "[a", "div{", "div{color", "div{color:", "@x (", "\\\\"]));
                bad += 1
            }
            _ => garbage(g, &mut text, &mut bad),
        }
        let mut e = El::new("style");
        e.id = 1000 + k;
        if !text.is_empty() {
            e.children.push(Node::Text(text))
        }
        match &mut doc.root.children[0] {
            Node::El(head) => head.children.push(Node::El(e)),
            _ => unreachable!(),
        }
    }
    let html = html_text(&doc);
    cx.count("invalid pieces", bad);
    if check_source(&doc, &html, false, cx, false)?.is_some() {
        cx.nontrivial = bad >= 3
    }
    Ok(())
}

pub fn recovery() -> Prop {
    Prop {
        id: "C12",
        rule: "a case is a document with valid declarations and rules in between invalid ones; non-trivial if there are at least three invalid pieces",
        assumptions: &["what is valid CSS, but not supported by Victor, is not generated as invalid"],
        parts: vec![part("recovery", 200_000, 3_000_000, c12)],
    }
}
