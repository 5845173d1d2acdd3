//! Source text of values and declarations.
use crate::engine::G;
use crate::models::css::*;
use crate::models::sel::ows;

/// name, value
pub const NAMED: &[(&str, Rgba)] = &[
    ("red", [255, 0, 0, 255]),
    ("lime", [0, 255, 0, 255]),
    ("blue", [0, 0, 255, 255]),
    ("teal", [0, 128, 128, 255]),
    ("orange", [255, 165, 0, 255]),
    ("purple", [128, 0, 128, 255]),
    ("rebeccapurple", [0x66, 0x33, 0x99, 255]),
    ("darkslategray", [0x2f, 0x4f, 0x4f, 255]),
    ("aliceblue", [240, 248, 255, 255]),
    ("black", [0, 0, 0, 255]),
    ("white", [255, 255, 255, 255]),
    ("transparent", [0, 0, 0, 0]),
];

pub fn color(g: &mut G) -> Rgba {
    match g.weighted(&[6, 3, 2]) {
        0 => NAMED[g.us(0, 10)].1,
        1 => [g.upto(15) as u8 * 17, g.upto(15) as u8 * 17, g.upto(15) as u8 * 17, 255],
        _ => {
            let a = match g.upto(3) {
                0 => *g.pick(&[1u8, 2, 3, 127, 253, 254, 100]),
                _ => *g.pick(&[255u8, 51, 102, 153, 204]),
            };
            [g.upto(255) as u8, g.upto(255) as u8, g.upto(255) as u8, a]
        }
    }
}

pub fn recase(s: &str, g: &mut G, wild: bool) -> String {
    if wild && g.chance(15) {
        s.chars().map(|c| if g.chance(50) { c.to_ascii_uppercase() } else { c }).collect()
    } else {
        s.into()
    }
}

/// a keyword or property name, in one of the ways to write it
pub fn word(s: &str, g: &mut G, wild: bool) -> String {
    let s = recase(s, g, wild);
    if wild && g.chance(3) {
        // with one character escaped
        let k = g.us(0, s.len() - 1);
        let c = s.as_bytes()[k];
        if c == b'(' || c == b'-' {
            return s;
        }
        return format!("{}\\{:x} {}", &s[..k], c, &s[k + 1..]);
    }
    s
}

pub fn color_text(c: Rgba, g: &mut G, wild: bool) -> String {
    let [r, gr, b, a] = c;
    let mut forms: Vec<String> = vec![];
    if let Some(n) = NAMED.iter().find(|n| n.1 == c) {
        forms.push(word(n.0, g, wild))
    }
    if a == 255 {
        forms.push(format!("#{:02x}{:02x}{:02x}", r, gr, b));
        if wild {
            forms.push(format!("#{:02X}{:02x}{:02X}fF", r, gr, b));
            if [r, gr, b].iter().all(|x| x % 17 == 0) {
                forms.push(format!("#{:x}{:X}{:x}", r / 17, gr / 17, b / 17));
                forms.push(format!("#{:x}{:X}{:x}f", r / 17, gr / 17, b / 17))
            }
            let n = recase("rgb(", g, wild);
            forms.push(format!("{}{}{},{} {}, {})", n, ows(g, wild), r, ows(g, wild), gr, b));
            forms.push(format!("{}{}  {}{} {} )", n, r, gr, ows(g, wild), b));
            if [r, gr, b].iter().all(|x| x % 51 == 0) {
                // 51 is 20%
                forms.push(format!("{}{}%, {}%, {}%)", n, r as u32 * 100 / 255, gr as u32 * 100 / 255, b as u32 * 100 / 255))
            }
            let n = recase("hsl", g, wild);
            let hsl = match [r, gr, b] {
                [255, 0, 0] => Some("(0, 100%, 50%)"),
                [0, 255, 0] => Some("(120, 100%, 50%)"),
                [0, 0, 255] => Some("(240deg 100% 50%)"),
                [255, 255, 255] => Some("(77, 10%, 100%)"),
                [0, 0, 0] => Some("(0.5turn, 10%, 0%)"),
                _ => None,
            };
            if let Some(h) = hsl {
                forms.push(format!("{}{}", n, h))
            }
        }
    } else if a % 51 == 0 {
        let n = recase(if wild && g.chance(50) { "rgb(" } else { "rgba(" }, g, wild);
        forms.push(format!("{}{}, {}, {}, .{})", n, r, gr, b, a as u32 * 10 / 255));
        if wild {
            forms.push(format!("{}{} {} {} / {}%)", n, r, gr, b, a as u32 * 100 / 255));
            forms.push(format!("#{:02x}{:02x}{:02x}{:02x}", r, gr, b, a));
        }
    } else {
        // (rounds to the same multiple of 1/255)
        let n = recase(if wild && g.chance(50) { "rgb(" } else { "rgba(" }, g, wild);
        forms.push(format!("{}{}, {}, {}, {:.4})", n, r, gr, b, a as f64 / 255.));
        if wild {
            forms.push(format!("{}{} {} {} / {:.2}%)", n, r, gr, b, a as f64 * 100. / 255.));
            forms.push(format!("#{:02x}{:02x}{:02x}{:02x}", r, gr, b, a));
        }
    }
    g.pick(&forms).clone()
}

pub fn number(x: f64, g: &mut G, wild: bool) -> String {
    let plain = format!("{}", x);
    if !wild {
        return plain;
    }
    match g.upto(9) {
        0 if x > 0. => format!("+{}", plain),
        1 if x.fract() == 0. => format!("{}.0", plain),
        2 if x > 0. => format!("0{}", plain),
        3 if x > 0. && x < 1. => plain[1..].to_string(),
        4 => format!("{}e1", x / 10.),
        5 => format!("{}E-2", x * 100.),
        6 => format!("{}e+0", plain),
        _ => plain,
    }
}

pub fn disp_name(d: Disp) -> &'static str {
    match d {
        Disp::None => "none",
        Disp::Contents => "contents",
        Disp::Block => "block",
        Disp::FlowRoot => "flow-root",
        Disp::Inline => "inline",
    }
}

pub fn value_text(v: Sv, g: &mut G, wild: bool) -> String {
    match v {
        Sv::Wide(w) => word(
            match w {
                Wide::Inherit => "inherit",
                Wide::Initial => "initial",
                Wide::Unset => "unset",
            },
            g,
            wild,
        ),
        Sv::Px(x) if x == 0. => g.pick(&["0", "0px", "0em", "-0", "0.0"][..if wild { 5 } else { 1 }]).to_string(),
        Sv::Px(x) => format!("{}{}", number(x, g, wild), word("px", g, wild)),
        Sv::Em(x) => {
            // "1e1em" is fine, but "1E-2em" too: the unit starts after the exponent
            let n = number(x, g, wild);
            format!("{}{}", n, recase("em", g, wild))
        }
        Sv::Pct(x) => format!("{}%", number(x, g, wild)),
        Sv::Auto => word("auto", g, wild),
        Sv::Rgba(c) => color_text(c, g, wild),
        Sv::Current => word("currentcolor", g, wild),
        Sv::Disp(d) => word(disp_name(d), g, wild),
        Sv::Pos(p) => word(
            match p {
                Pos::Static => "static",
                Pos::Relative => "relative",
                Pos::Absolute => "absolute",
            },
            g,
            wild,
        ),
        Sv::Fl(p) => word(
            match p {
                Fl::None => "none",
                Fl::Left => "left",
                Fl::Right => "right",
            },
            g,
            wild,
        ),
        Sv::Line(l) => word(if l == Line::None { "none" } else { "solid" }, g, wild),
    }
}

/// `name: value`, with optional `!important`
pub fn decl_from(name: &str, value: &str, sets: Vec<(Lh, Sv)>, important: bool, g: &mut G, wild: bool) -> Decl {
    let mut t = word(name, g, wild);
    t.push_str(ows(g, wild));
    t.push(':');
    t.push_str(ows(g, wild));
    t.push_str(value);
    if important {
        t.push_str(ows(g, wild));
        t.push('!');
        t.push_str(ows(g, wild));
        t.push_str(&word("important", g, wild));
    }
    t.push_str(ows(g, wild));
    Decl { text: t, sets, important }
}

pub fn decl(lh: Lh, v: Sv, important: bool, g: &mut G, wild: bool) -> Decl {
    let value = value_text(v, g, wild);
    decl_from(&lh.name(), &value, vec![(lh, v)], important, g, wild)
}

/// Declarations as the contents of a block or style attribute
pub fn block_text(ds: &[Decl], g: &mut G, wild: bool) -> String {
    let mut t = String::from(ows(g, wild));
    for (i, d) in ds.iter().enumerate() {
        t.push_str(&d.text);
        if i + 1 < ds.len() || g.chance(if wild { 50 } else { 0 }) {
            t.push(';');
            if wild && g.chance(5) {
                t.push(';')
            }
            t.push_str(ows(g, wild));
        }
    }
    t
}
