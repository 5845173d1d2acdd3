//! Reference model of the style system: declarations, the cascade, computed values.
use super::dom::El;
use super::sel::{self, Path, Selector, Spec};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lpa {
    Px(f64),
    Pct(f64),
    Auto,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Disp {
    None,
    Contents,
    Block,
    FlowRoot,
    Inline,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    Static,
    Relative,
    Absolute,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fl {
    None,
    Left,
    Right,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Line {
    None,
    Solid,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wide {
    Inherit,
    Initial,
    Unset,
}
pub type Rgba = [u8; 4];

/// Longhand properties.  Sides are 0 = top, 1 = right, 2 = bottom, 3 = left.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lh {
    FontSize,
    Color,
    Position,
    Float,
    Display,
    Off(usize),
    Width,
    Height,
    Margin(usize),
    Padding(usize),
    BColor(usize),
    BStyle(usize),
    BWidth(usize),
    Bg,
}
pub const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
impl Lh {
    pub fn name(self) -> String {
        match self {
            Lh::FontSize => "font-size".into(),
            Lh::Color => "color".into(),
            Lh::Position => "position".into(),
            Lh::Float => "float".into(),
            Lh::Display => "display".into(),
            Lh::Off(i) => SIDES[i].into(),
            Lh::Width => "width".into(),
            Lh::Height => "height".into(),
            Lh::Margin(i) => format!("margin-{}", SIDES[i]),
            Lh::Padding(i) => format!("padding-{}", SIDES[i]),
            Lh::BColor(i) => format!("border-{}-color", SIDES[i]),
            Lh::BStyle(i) => format!("border-{}-style", SIDES[i]),
            Lh::BWidth(i) => format!("border-{}-width", SIDES[i]),
            Lh::Bg => "background-color".into(),
        }
    }
    fn inherited(self) -> bool {
        matches!(self, Lh::FontSize | Lh::Color)
    }
}

/// A specified value
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sv {
    Wide(Wide),
    Px(f64),
    Em(f64),
    Pct(f64),
    Auto,
    Rgba(Rgba),
    Current,
    Disp(Disp),
    Pos(Pos),
    Fl(Fl),
    Line(Line),
}

/// One declaration, as source text and as what it stands for
/// (nothing at all if the source is not valid).
#[derive(Clone, Debug)]
pub struct Decl {
    pub text: String,
    pub sets: Vec<(Lh, Sv)>,
    pub important: bool,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub selectors: Vec<Selector>,
    pub decls: Vec<Decl>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Style {
    pub font_size: f64,
    pub color: Rgba,
    pub position: Pos,
    pub float: Fl,
    /// after blockification
    pub display: Disp,
    pub specified_display: Disp,
    pub off: [Lpa; 4],
    pub width: Lpa,
    pub height: Lpa,
    pub margin: [Lpa; 4],
    pub padding: [Lpa; 4],
    pub bcolor: [Option<Rgba>; 4],
    pub bstyle: [Line; 4],
    pub bwidth: [f64; 4],
    /// None is currentColor
    pub bg: Option<Rgba>,
}

pub fn initial() -> Style {
    Style {
        font_size: 16.,
        color: [0, 0, 0, 255],
        position: Pos::Static,
        float: Fl::None,
        display: Disp::Inline,
        specified_display: Disp::Inline,
        off: [Lpa::Auto; 4],
        width: Lpa::Auto,
        height: Lpa::Auto,
        margin: [Lpa::Px(0.); 4],
        padding: [Lpa::Px(0.); 4],
        bcolor: [None; 4],
        bstyle: [Line::None; 4],
        bwidth: [3.; 4],
        bg: Some([0, 0, 0, 0]),
    }
}

/// Style of an anonymous box
pub fn anonymous(parent: &Style) -> Style {
    let mut s = initial();
    s.font_size = parent.font_size;
    s.color = parent.color;
    fixup(&mut s);
    s
}

fn fixup(s: &mut Style) {
    for i in 0..4 {
        if s.bstyle[i] == Line::None {
            s.bwidth[i] = 0.
        }
    }
    s.specified_display = s.display;
    if (s.position == Pos::Absolute || s.float != Fl::None) && s.display == Disp::Inline {
        s.display = Disp::Block
    }
}

fn copy_from(s: &mut Style, lh: Lh, from: &Style) {
    match lh {
        Lh::FontSize => s.font_size = from.font_size,
        Lh::Color => s.color = from.color,
        Lh::Position => s.position = from.position,
        Lh::Float => s.float = from.float,
        Lh::Display => s.display = from.display,
        Lh::Off(i) => s.off[i] = from.off[i],
        Lh::Width => s.width = from.width,
        Lh::Height => s.height = from.height,
        Lh::Margin(i) => s.margin[i] = from.margin[i],
        Lh::Padding(i) => s.padding[i] = from.padding[i],
        Lh::BColor(i) => s.bcolor[i] = from.bcolor[i],
        Lh::BStyle(i) => s.bstyle[i] = from.bstyle[i],
        Lh::BWidth(i) => s.bwidth[i] = from.bwidth[i],
        Lh::Bg => s.bg = from.bg,
    }
}

fn apply(s: &mut Style, lh: Lh, v: Sv, parent: &Style) {
    if let Sv::Wide(w) = v {
        let inherit = match w {
            Wide::Inherit => true,
            Wide::Initial => false,
            Wide::Unset => lh.inherited(),
        };
        if inherit {
            copy_from(s, lh, parent)
        } else {
            copy_from(s, lh, &initial())
        }
        return;
    }
    let fs = if lh == Lh::FontSize { parent.font_size } else { s.font_size };
    let lpa = || match v {
        Sv::Px(x) => Lpa::Px(x),
        Sv::Em(x) => Lpa::Px(x * fs),
        Sv::Pct(x) => Lpa::Pct(x),
        Sv::Auto => Lpa::Auto,
        _ => panic!("not a length: {:?}", v),
    };
    let px = || match v {
        Sv::Px(x) => x,
        Sv::Em(x) => x * fs,
        _ => panic!("not a length: {:?}", v),
    };
    let col = || match v {
        Sv::Rgba(c) => Some(c),
        Sv::Current => None,
        _ => panic!("not a color: {:?}", v),
    };
    match lh {
        Lh::FontSize => s.font_size = px(),
        Lh::Color => s.color = col().unwrap_or(parent.color),
        Lh::Position => s.position = if let Sv::Pos(p) = v { p } else { panic!() },
        Lh::Float => s.float = if let Sv::Fl(p) = v { p } else { panic!() },
        Lh::Display => s.display = if let Sv::Disp(p) = v { p } else { panic!() },
        Lh::Off(i) => s.off[i] = lpa(),
        Lh::Width => s.width = lpa(),
        Lh::Height => s.height = lpa(),
        Lh::Margin(i) => s.margin[i] = lpa(),
        Lh::Padding(i) => s.padding[i] = lpa(),
        Lh::BColor(i) => s.bcolor[i] = col(),
        Lh::BStyle(i) => s.bstyle[i] = if let Sv::Line(p) = v { p } else { panic!() },
        Lh::BWidth(i) => s.bwidth[i] = px(),
        Lh::Bg => s.bg = col(),
    }
}

// ---------------------------------------------------------------- the user agent style sheet

const NONE: &[&str] = &[
    "area", "base", "basefont", "datalist", "head", "link", "meta", "noembed", "noframes", "param", "rp", "script",
    "source", "style", "template", "track", "title",
];
const BLOCK: &[&str] = &[
    "html", "body", "address", "blockquote", "center", "dialog", "div", "figure", "figcaption", "footer", "form",
    "header", "hr", "legend", "listing", "main", "p", "plaintext", "pre", "xmp",
];

fn user_agent(el: &El) -> (Vec<(Lh, Sv)>, Vec<(Lh, Sv)>) {
    let mut normal = vec![];
    let mut important = vec![];
    let n = &*el.name;
    if NONE.contains(&n) {
        normal.push((Lh::Display, Sv::Disp(Disp::None)))
    }
    if BLOCK.contains(&n) {
        normal.push((Lh::Display, Sv::Disp(Disp::Block)))
    }
    if n == "body" {
        for i in 0..4 {
            normal.push((Lh::Margin(i), Sv::Px(8.)))
        }
    }
    if el.attr("hidden").is_some() {
        if n == "embed" {
            normal.push((Lh::Display, Sv::Disp(Disp::Inline)));
            normal.push((Lh::Height, Sv::Px(0.)));
            normal.push((Lh::Width, Sv::Px(0.)))
        } else {
            normal.push((Lh::Display, Sv::Disp(Disp::None)))
        }
    }
    if n == "input" && el.attr("type").map_or(false, |t| t.eq_ignore_ascii_case("hidden")) {
        important.push((Lh::Display, Sv::Disp(Disp::None)))
    }
    (normal, important)
}

// ---------------------------------------------------------------- the cascade

pub fn computed(path: &Path, rules: &[Rule], style_attr: Option<&[Decl]>, parent: Option<&Style>) -> Rc<Style> {
    let el = path[path.len() - 1].0;
    // (origin and importance, style attribute, specificity, order) then declarations
    type Key = (u8, bool, Spec, usize);
    let mut all: Vec<(Key, Lh, Sv)> = vec![];
    let (n, i) = user_agent(el);
    let mut order = 0;
    for (lh, v) in n {
        all.push(((0, false, (0, 0, 0), order), lh, v));
        order += 1
    }
    for (lh, v) in i {
        all.push(((3, false, (0, 0, 0), order), lh, v));
        order += 1
    }
    let mut add = |decls: &[Decl], attr: bool, spec: Spec, all: &mut Vec<(Key, Lh, Sv)>| {
        for d in decls {
            for (lh, v) in &d.sets {
                all.push(((if d.important { 2 } else { 1 }, attr, spec, order), *lh, *v));
                order += 1
            }
        }
    };
    for r in rules {
        // the most specific of the selectors that match
        if let Some(spec) = r.selectors.iter().filter(|s| sel::matches(s, path)).map(|s| s.specificity()).max() {
            add(&r.decls, false, spec, &mut all)
        }
    }
    if let Some(d) = style_attr {
        add(d, true, (0, 0, 0), &mut all)
    }
    all.sort_by_key(|a| a.0);
    let init = initial();
    let parent = parent.unwrap_or(&init);
    let mut s = initial();
    s.font_size = parent.font_size;
    s.color = parent.color;
    // The winner for each property; the font size first, since other values depend on it
    let mut winners: Vec<(Lh, Sv)> = vec![];
    for (_, lh, v) in all.iter().rev() {
        if !winners.iter().any(|w| w.0 == *lh) {
            winners.push((*lh, *v))
        }
    }
    winners.sort_by_key(|w| w.0);
    for (lh, v) in winners {
        apply(&mut s, lh, v, parent)
    }
    fixup(&mut s);
    Rc::new(s)
}
