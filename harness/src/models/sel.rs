//! Selectors Level 3/4 subset: an AST, its text, its specificity, and the definition of matching.
use super::dom::{El, Node};
use crate::engine::G;

#[derive(Clone, Debug)]
pub enum Simple {
    Univ,
    Type(String),
    Id(String),
    Class(String),
    Attr { name: String, op: Op, value: String, flag: Flag },
    First,
    Last,
    Only,
    FirstT,
    LastT,
    OnlyT,
    Root,
    Scope,
    Empty,
    Nth { a: i32, b: i32, last: bool, of_type: bool },
    Not(Box<Simple>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Exists,
    Eq,
    Includes,
    Dash,
    Prefix,
    Suffix,
    Sub,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flag {
    None,
    I,
    S,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comb {
    Desc,
    Child,
    Next,
    Later,
}
#[derive(Clone, Debug)]
pub struct Selector {
    /// leftmost first
    pub first: Vec<Simple>,
    pub rest: Vec<(Comb, Vec<Simple>)>,
}

pub type Spec = (u32, u32, u32);

fn spec_simple(s: &Simple) -> Spec {
    match s {
        Simple::Univ => (0, 0, 0),
        Simple::Type(_) => (0, 0, 1),
        Simple::Id(_) => (1, 0, 0),
        Simple::Not(s) => spec_simple(s),
        _ => (0, 1, 0),
    }
}
impl Selector {
    pub fn simple(s: Simple) -> Selector {
        Selector { first: vec![s], rest: vec![] }
    }
    pub fn specificity(&self) -> Spec {
        let mut r = (0, 0, 0);
        for s in self.first.iter().chain(self.rest.iter().flat_map(|c| c.1.iter())) {
            let x = spec_simple(s);
            r = (r.0 + x.0, r.1 + x.1, r.2 + x.2)
        }
        r
    }
}

// ---------------------------------------------------------------- matching

/// Path from the root to an element: each element with its index among the parent's children.
pub type Path<'a> = [(&'a El, usize)];

fn siblings<'a>(path: &Path<'a>) -> Vec<(&'a El, usize)> {
    if path.len() < 2 {
        return vec![path[path.len() - 1]];
    }
    path[path.len() - 2]
        .0
        .children
        .iter()
        .enumerate()
        .filter_map(|(i, c)| if let Node::El(e) = c { Some((e, i)) } else { None })
        .collect()
}

const HTML_CI_ATTRS: &[&str] = &["lang", "type", "dir", "align", "color", "media", "rel"];

pub fn attr_value_matches(op: Op, actual: &str, wanted: &str, ci: bool) -> bool {
    let f = |s: &str| if ci { s.to_ascii_lowercase() } else { s.to_string() };
    let (a, w) = (f(actual), f(wanted));
    let ws = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c');
    match op {
        Op::Exists => true,
        Op::Eq => a == w,
        Op::Includes => !w.is_empty() && !w.contains(ws) && a.split(ws).any(|x| x == w),
        Op::Dash => a == w || a.starts_with(&format!("{}-", w)),
        Op::Prefix => !w.is_empty() && a.starts_with(&w),
        Op::Suffix => !w.is_empty() && a.ends_with(&w),
        Op::Sub => !w.is_empty() && a.contains(&w),
    }
}

pub fn matches_simple(s: &Simple, path: &Path) -> bool {
    let (el, index) = path[path.len() - 1];
    let pos = |of_type: bool, last: bool| -> i64 {
        let mut sib = siblings(path);
        if last {
            sib.reverse()
        }
        let mut n = 0;
        for (e, i) in sib {
            if !of_type || e.name == el.name {
                n += 1;
            }
            if i == index && e.id == el.id {
                break;
            }
        }
        n
    };
    match s {
        Simple::Univ => true,
        Simple::Type(t) if el.xml => *t == el.name,
        Simple::Type(t) => t.to_ascii_lowercase() == el.name,
        Simple::Id(i) => el.attr("id") == Some(i),
        Simple::Class(c) => el.attr("class").map_or(false, |v| v.split(|c: char| " \t\n\r\x0c".contains(c)).any(|x| x == c)),
        Simple::Attr { name, op, value, flag } => {
            // "*|name" is in any namespace, "|name" in none, like "name"
            let any = name.starts_with("*|");
            let local = name.trim_start_matches('*').trim_start_matches('|');
            let local = if el.xml { local.to_string() } else { local.to_ascii_lowercase() };
            let ci = match flag {
                Flag::I => true,
                Flag::S => false,
                Flag::None => !el.xml && !any && HTML_CI_ATTRS.contains(&&*local),
            };
            el.attrs.iter().any(|(k, v)| {
                let named = if any { k.rsplit(':').next() == Some(&local) } else { *k == local };
                named && attr_value_matches(*op, v, value, ci)
            })
        }
        Simple::First => pos(false, false) == 1,
        Simple::Last => pos(false, true) == 1,
        Simple::Only => pos(false, false) == 1 && pos(false, true) == 1,
        Simple::FirstT => pos(true, false) == 1,
        Simple::LastT => pos(true, true) == 1,
        Simple::OnlyT => pos(true, false) == 1 && pos(true, true) == 1,
        Simple::Root | Simple::Scope => path.len() == 1,
        Simple::Empty => el.children.iter().all(|c| match c {
            Node::El(_) => false,
            Node::Text(t) => t.is_empty(),
            Node::Comment(_) => true,
        }),
        Simple::Nth { a, b, last, of_type } => {
            let p = pos(*of_type, *last);
            let (a, b) = (*a as i64, *b as i64);
            (0..1000).any(|n| a * n + b == p)
        }
        Simple::Not(s) => !matches_simple(s, path),
    }
}

fn matches_compound(c: &[Simple], path: &Path) -> bool {
    c.iter().all(|s| matches_simple(s, path))
}

pub fn matches(sel: &Selector, path: &Path) -> bool {
    let mut compounds: Vec<&[Simple]> = vec![&sel.first];
    compounds.extend(sel.rest.iter().map(|c| &c.1[..]));
    let combs: Vec<Comb> = sel.rest.iter().map(|c| c.0).collect();
    go(&compounds, &combs, path)
}

/// does the last compound match this element, with the rest of the chain satisfied?
fn go(compounds: &[&[Simple]], combs: &[Comb], path: &Path) -> bool {
    let n = compounds.len();
    if !matches_compound(compounds[n - 1], path) {
        return false;
    }
    if n == 1 {
        return true;
    }
    let (cs, cb) = (&compounds[..n - 1], &combs[..n - 2]);
    let preceding = || {
        let index = path[path.len() - 1].1;
        siblings(path).into_iter().filter(move |s| s.1 < index).collect::<Vec<_>>()
    };
    let with = |s: (&El, usize)| {
        let mut p = path[..path.len() - 1].to_vec();
        // lifetimes are shared with the path's own elements
        let s: (&El, usize) = s;
        p.push(s);
        go(cs, cb, &p)
    };
    match combs[n - 2] {
        Comb::Child => path.len() > 1 && go(cs, cb, &path[..path.len() - 1]),
        Comb::Desc => (1..path.len()).any(|k| go(cs, cb, &path[..k])),
        Comb::Next => path.len() > 1 && preceding().last().map_or(false, |s| with(*s)),
        Comb::Later => path.len() > 1 && preceding().into_iter().any(|s| with(s)),
    }
}

// ---------------------------------------------------------------- text

/// A CSS identifier, with some characters escaped if asked for or needed
pub fn ident_text(s: &str, g: &mut G, wild: bool) -> String {
    let mut o = String::new();
    let chars: Vec<char> = s.chars().collect();
    for (i, &c) in chars.iter().enumerate() {
        let start_digit = c.is_ascii_digit() && (i == 0 || (i == 1 && chars[0] == '-'));
        let lone = c == '-' && i == 0 && (chars.len() == 1 || chars[1] == '-');
        let plain = (c.is_ascii_alphanumeric() || c == '-' || c == '_' || c as u32 >= 0x80) && !start_digit && !lone;
        if plain && !(wild && g.chance(4)) {
            o.push(c)
        } else if c.is_ascii_hexdigit() || c.is_control() || g.chance(50) {
            let upper = g.chance(50);
            let h = match g.upto(2) {
                0 => format!("{:x}", c as u32),
                1 => format!("{:06x}", c as u32),
                _ => format!("{:x}", c as u32),
            };
            o.push('\\');
            o.push_str(&if upper { h.to_ascii_uppercase() } else { h.clone() });
            // A space ends the escape
            o.push(' ')
        } else {
            o.push('\\');
            o.push(c)
        }
    }
    o
}

fn string_text(s: &str, g: &mut G) -> String {
    let q = if g.chance(40) { '\'' } else { '"' };
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        if c == q || c == '\\' {
            o.push('\\');
            o.push(c)
        } else if c.is_control() {
            o.push_str(&format!("\\{:x} ", c as u32))
        } else {
            o.push(c)
        }
    }
    o.push(q);
    o
}

pub fn case(s: &str, g: &mut G, wild: bool) -> String {
    if wild && g.chance(15) {
        s.chars().map(|c| if g.chance(50) { c.to_ascii_uppercase() } else { c }).collect()
    } else {
        s.into()
    }
}

/// optional white space or comment where one may appear
pub fn ows(g: &mut G, wild: bool) -> &'static str {
    if !wild {
        return "";
    }
    *g.pick(&["", "", "", "", " ", "  ", "\n", "\t", "/**/", " /* x */ "])
}

fn nth_text(a: i32, b: i32, g: &mut G, wild: bool) -> String {
    if (a, b) == (2, 1) && g.chance(50) {
        return case("odd", g, wild);
    }
    if (a, b) == (2, 0) && g.chance(50) {
        return case("even", g, wild);
    }
    if a == 0 && g.chance(80) {
        return if b >= 0 && wild && g.chance(20) { format!("+{}", b) } else { b.to_string() };
    }
    let n = if wild && g.chance(15) { "N" } else { "n" };
    let a = match a {
        1 if g.chance(70) => {
            if wild && g.chance(20) {
                "+".to_string()
            } else {
                String::new()
            }
        }
        -1 if g.chance(70) => "-".to_string(),
        a if a > 0 && wild && g.chance(10) => format!("+{}", a),
        a => a.to_string(),
    };
    let sp = |g: &mut G| if wild && g.chance(30) { " " } else { "" };
    if b == 0 && g.chance(70) {
        format!("{}{}", a, n)
    } else if b < 0 {
        let s1 = sp(g);
        // "n- 1", "n -1", "n-1" and "n - 1" are all valid
        let s2 = if wild && g.chance(30) { " " } else { "" };
        format!("{}{}{}-{}{}", a, n, s1, s2, -(b as i64))
    } else {
        format!("{}{}{}+{}{}", a, n, sp(g), sp(g), b)
    }
}

pub fn simple_text(s: &Simple, g: &mut G, wild: bool) -> String {
    match s {
        Simple::Univ => "*".into(),
        Simple::Type(t) => {
            let t = case(t, g, wild && !g.exact_case);
            let t = ident_text(&t, g, wild);
            if wild && g.chance(3) {
                format!("*|{}", t)
            } else {
                t
            }
        }
        Simple::Id(i) => format!("#{}", ident_text(i, g, wild)),
        Simple::Class(c) => format!(".{}", ident_text(c, g, wild)),
        Simple::Attr { name, op, value, flag } => {
            let mut o = String::from("[");
            o.push_str(ows(g, wild));
            let bar = name.find('|').map_or(0, |i| i + 1);
            o.push_str(&name[..bar]);
            let name = case(&name[bar..], g, wild && !g.exact_case);
            o.push_str(&ident_text(&name, g, wild));
            o.push_str(ows(g, wild));
            if *op != Op::Exists {
                o.push_str(match op {
                    Op::Eq => "=",
                    Op::Includes => "~=",
                    Op::Dash => "|=",
                    Op::Prefix => "^=",
                    Op::Suffix => "$=",
                    Op::Sub => "*=",
                    Op::Exists => unreachable!(),
                });
                o.push_str(ows(g, wild));
                let idable = !value.is_empty() && !value.contains(|c: char| c.is_whitespace() || c.is_control());
                if idable && g.chance(50) {
                    o.push_str(&ident_text(value, g, wild))
                } else {
                    o.push_str(&string_text(value, g))
                }
                match flag {
                    Flag::None => {}
                    Flag::I => o.push_str(if g.chance(50) { " i" } else { " I" }),
                    Flag::S => o.push_str(" s"),
                }
                o.push_str(ows(g, wild));
            }
            o.push(']');
            o
        }
        Simple::First => pseudo("first-child", g, wild),
        Simple::Last => pseudo("last-child", g, wild),
        Simple::Only => pseudo("only-child", g, wild),
        Simple::FirstT => pseudo("first-of-type", g, wild),
        Simple::LastT => pseudo("last-of-type", g, wild),
        Simple::OnlyT => pseudo("only-of-type", g, wild),
        Simple::Root => pseudo("root", g, wild),
        Simple::Scope => pseudo("scope", g, wild),
        Simple::Empty => pseudo("empty", g, wild),
        Simple::Nth { a, b, last, of_type } => {
            let name = match (last, of_type) {
                (false, false) => "nth-child",
                (true, false) => "nth-last-child",
                (false, true) => "nth-of-type",
                (true, true) => "nth-last-of-type",
            };
            let sp = if wild && g.chance(20) { " " } else { "" };
            format!("{}({}{}{})", pseudo(name, g, wild), sp, nth_text(*a, *b, g, wild), sp)
        }
        Simple::Not(s) => {
            let sp = if wild && g.chance(20) { " " } else { "" };
            format!("{}({}{}{})", pseudo("not", g, wild), sp, simple_text(s, g, wild), sp)
        }
    }
}
fn pseudo(n: &str, g: &mut G, wild: bool) -> String {
    format!(":{}", case(n, g, wild))
}

pub fn compound_text(c: &[Simple], g: &mut G, wild: bool) -> String {
    let mut o = String::new();
    for s in c {
        if !o.is_empty() && wild && g.chance(4) {
            o.push_str("/**/")
        }
        o.push_str(&simple_text(s, g, wild))
    }
    o
}

pub fn selector_text(s: &Selector, g: &mut G, wild: bool) -> String {
    let mut o = compound_text(&s.first, g, wild);
    for (comb, c) in &s.rest {
        match comb {
            Comb::Desc => o.push_str(if wild { *g.pick(&[" ", " ", "  ", "\n", "\t", " /**/ "]) } else { " " }),
            Comb::Child | Comb::Next | Comb::Later => {
                o.push_str(ows(g, wild));
                o.push(match comb {
                    Comb::Child => '>',
                    Comb::Next => '+',
                    _ => '~',
                });
                o.push_str(ows(g, wild));
            }
        }
        o.push_str(&compound_text(c, g, wild));
    }
    o
}
