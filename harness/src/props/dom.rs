//! C09 to C11: the trees made by the parsers.
use super::css::rule_text;
use super::decls::*;
use super::page::*;
use crate::engine::*;
use crate::models::css::*;
use crate::models::layout::Doc;
use crate::models::refdom::{Data, RefDom};
use crate::models::sel::*;
use std::collections::HashMap;

/// Rules that make the tree visible: every element is a block inside of its parent,
/// with a colour that depends on its name, and paddings on attributes.
fn revealing() -> Vec<Rule> {
    let univ = |k: &str| Selector::simple(if k == "*" { Simple::Univ } else { Simple::Type(k.into()) });
    let d = |lh, v, important| Decl { text: String::new(), sets: vec![(lh, v)], important };
    let mut rules = vec![Rule {
        selectors: vec![univ("*")],
        decls: vec![
            d(Lh::Display, Sv::Disp(Disp::Block), true),
            d(Lh::Margin(0), Sv::Px(0.), true),
            d(Lh::Margin(1), Sv::Px(0.), true),
            d(Lh::Margin(2), Sv::Px(0.), true),
            d(Lh::Margin(3), Sv::Px(0.), true),
            d(Lh::Padding(3), Sv::Px(2.), false),
            d(Lh::Padding(0), Sv::Px(1.), false),
            d(Lh::Bg, Sv::Rgba([255, 255, 254, 255]), false),
        ],
    }];
    for (i, n) in VISIBLE_NAMES.iter().enumerate() {
        let i = i as u8;
        rules.push(Rule { selectors: vec![univ(n)], decls: vec![d(Lh::Bg, Sv::Rgba([3 * i, 255 - 2 * i, 7, 255]), false)] })
    }
    let attr = |name: &str, op, value: &str| {
        Selector::simple(Simple::Attr { name: name.into(), op, value: value.into(), flag: Flag::None })
    };
    rules.push(Rule { selectors: vec![attr("a", Op::Exists, "")], decls: vec![d(Lh::Padding(2), Sv::Px(3.), false)] });
    rules.push(Rule { selectors: vec![attr("a", Op::Eq, "1")], decls: vec![d(Lh::Padding(2), Sv::Px(5.), false)] });
    rules.push(Rule { selectors: vec![attr("b", Op::Exists, "")], decls: vec![d(Lh::Padding(1), Sv::Px(3.), false)] });
    rules.push(Rule { selectors: vec![attr("b", Op::Eq, "2")], decls: vec![d(Lh::Padding(1), Sv::Px(7.), false)] });
    rules.push(Rule {
        selectors: vec![Selector::simple(Simple::Id("sheet".into()))],
        decls: vec![d(Lh::Display, Sv::Disp(Disp::None), true)],
    });
    // previous and next siblings
    for (i, n) in HARD.iter().enumerate() {
        let next = Selector { first: vec![Simple::Type((*n).into())], rest: vec![(Comb::Next, vec![Simple::Univ])] };
        rules.push(Rule { selectors: vec![next], decls: vec![d(Lh::Padding(3), Sv::Px(2.25 + i as f64 / 4.), false)] });
    }
    for (i, n) in ["i", "table", "div"].iter().enumerate() {
        let later = Selector { first: vec![Simple::Type((*n).into())], rest: vec![(Comb::Later, vec![Simple::Univ])] };
        rules.push(Rule {
            selectors: vec![later],
            decls: vec![d(Lh::BStyle(3), Sv::Line(Line::Solid), false), d(Lh::BWidth(3), Sv::Px(1. + i as f64 / 2.), false)],
        });
    }
    for (s, side) in vec![(Simple::First, 0), (Simple::Last, 2)] {
        rules.push(Rule {
            selectors: vec![Selector::simple(s)],
            decls: vec![d(Lh::BStyle(side), Sv::Line(Line::Solid), false), d(Lh::BWidth(side), Sv::Px(1.5), false)],
        });
    }
    for r in &mut rules {
        let mut g = G::replay(vec![]);
        for d in &mut r.decls {
            let (lh, v) = d.sets[0];
            d.text = decl(lh, v, d.important, &mut g, false).text
        }
    }
    rules
}

const VISIBLE_NAMES: &[&str] = &[
    "html", "head", "body", "div", "p", "a", "b", "i", "nobr", "table", "tbody", "tr", "td", "th", "caption", "colgroup", "col", "select",
    "option", "optgroup", "ul", "li", "dd", "dt", "h1", "h2", "form", "button", "svg", "math", "mi", "desc", "title", "script", "br", "hr",
    "input", "textarea", "pre", "span", "em", "font", "ruby", "rt", "rp", "rb", "frameset", "frame", "image", "img", "applet", "object",
    "marquee", "x-y", "template", "plaintext", "noscript", "link", "meta", "base", "style", "annotation-xml", "mtext", "address",
];
const TAGS: &[&str] = &[
    "div", "p", "a", "b", "i", "nobr", "table", "tbody", "tr", "td", "th", "caption", "colgroup", "col", "select", "option", "optgroup", "ul",
    "li", "dd", "dt", "h1", "h2", "form", "button", "svg", "math", "mi", "desc", "title", "br", "hr", "input", "textarea", "pre", "span",
    "em", "font", "ruby", "rt", "rp", "rb", "image", "img", "applet", "object", "marquee", "x-y", "template", "noscript", "link", "meta",
    "annotation-xml", "mtext", "address", "html", "head", "body", "frameset", "frame", "foreignObject", "plaintext", "script", "tfoot", "tt",
    "big", "listing", "hidden", "center", "dialog",
];
/// the ones that make the parser work
const HARD: &[&str] = &["a", "b", "i", "nobr", "font", "p", "div", "table", "tr", "td", "button", "select", "h1", "li", "svg", "em", "marquee"];

fn text(g: &mut G) -> String {
    let mut t = String::new();
    for _ in 0..g.us(1, 3) {
        t.push_str(*g.pick(&["x", "y", "ab", " ", "  ", "\n", "&amp;", "&lt", "&notit;", "&#65;", "&#x41", "&", "é", "z", "1", "\t", "\r\n", "\0", "]]>", "<", "< b"]))
    }
    t
}

/// Tag soup
fn soup(g: &mut G, n: usize) -> String {
    let mut s = String::new();
    let mut open: Vec<String> = vec![];
    let tokens = g.list(0, n, 3 * n, |g| {
        let mut t = String::new();
        match g.weighted(&[40, 30, 25, 4, 2, 1, 1, 2]) {
            0 => {
                let name = if g.chance(60) { *g.pick(HARD) } else { *g.pick(TAGS) };
                if matches!(name, "html" | "head" | "body" | "frameset" | "plaintext" | "script" | "textarea" | "title") && g.chance(60) {
                    return String::new();
                }
                t.push('<');
                t.push_str(&recase(name, g, true));
                for (k, vs) in &[("a", ["1", "2", ""]), ("b", ["1", "2", "x"]), ("type", ["hidden", "text", "x"]), ("encoding", ["text/html", "x", ""])] {
                    let pct = match (*k, name) {
                        ("type", "input") => 50,
                        ("encoding", "annotation-xml") => 60,
                        ("type", _) | ("encoding", _) => 0,
                        _ => 15,
                    };
                    if g.chance(pct) {
                        t.push_str(&format!(" {}={}{}{}", k, "\"", g.pick(vs), "\""));
                        if g.chance(5) {
                            t.push_str(&format!(" {}=9", k))
                        }
                    }
                }
                if g.chance(4) {
                    t.push('/')
                }
                t.push('>');
                open.push(name.into());
            }
            1 => {
                let name = if open.is_empty() || g.chance(25) {
                    if g.chance(50) { *g.pick(HARD) } else { *g.pick(TAGS) }.to_string()
                } else {
                    let k = open.len() - 1 - (g.upto(3) as usize).min(open.len() - 1);
                    open[k].clone()
                };
                t = format!("</{}>", name)
            }
            2 => t = text(g),
            3 => t = (*g.pick(&["<!-- c -->", "<!--x--!>", "<!>", "<?pi x>", "</>", "<!-->", "<![CDATA[q]]>"])).into(),
            4 => t = (*g.pick(&["</p>", "</br>", "</body>", "</html>", "</head>", "</table>"])).into(),
            5 => t = "<!doctype x>".into(),
            // attributes that are merged with those that are there
            7 => t = format!("<{}{}>", g.pick(&["html", "body"]), g.pick(&["", " a=1", " a=2", " b=1", " b=2", " a=2 b=2", " b=x a"])),
            _ => t = (*g.pick(&["<style>q</style>", "<script><!--<script></script>w</script>v", "<svg><title>", "<table><tr><b>"])).into(),
        }
        t
    });
    for t in tokens {
        s.push_str(&t)
    }
    s
}

fn c09(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let rules = revealing();
    let mut html = String::new();
    match g.upto(9) {
        0 => {}
        1 => html.push_str("<!-- c --><!doctype html>"),
        2 => html.push_str("<!doctype html public \"-//W3C//DTD HTML 4.01 Transitional//EN\">"),
        _ => html.push_str("<!doctype html>"),
    }
    let mut g0 = G::replay(vec![]);
    html.push_str("<style id=sheet>");
    for r in &rules {
        html.push_str(&rule_text(r, &mut g0, false))
    }
    html.push_str("</style>");
    let head = html.len();
    if g.chance(20) {
        html.push_str(&format!("<body{}>", g.pick(&[" a=1", " b=2", " c", ""])))
    }
    html.push_str(&soup(g, 20));
    let dom = RefDom::parse(html.as_bytes());
    let doc = Doc { root: dom.el(dom.root()), rules, attrs: HashMap::new() };
    let r = check_source(&doc, &html, false, cx, false);
    cx.desc(format!("<style id=sheet>(...)</style>{}", &html[head..]));
    for (n, l) in dom.ops.iter().zip(&["inserted before a sibling", "moved", "children reparented", "attributes added", "text merged"]) {
        cx.count(l, *n)
    }
    if r?.is_some() {
        cx.nontrivial = dom.ops[..4].iter().sum::<u64>() >= 1
    }
    Ok(())
}
pub fn html_tree() -> Prop {
    Prop {
        id: "C09",
        rule: "a case is a document of tag soup; non-trivial if the parser inserts a node before a sibling, moves or removes one, reparents children, or merges attributes",
        assumptions: &["the tokenizer and tree construction of html5ever conform to the HTML specification"],
        parts: vec![part("tag-soup", 140_000, 2_500_000, c09)],
    }
}

// ---------------------------------------------------------------- C10

fn link(g: &mut G, xml: bool) -> String {
    let attrs = [("rel", vec!["stylesheet", "icon", "a b", "", "x&amp;y", "é"]), ("href", vec!["u", "a.css", "", "?a=b&amp;c", "http://x/"]), ("title", vec!["t"]), ("class", vec!["c"])];
    let mut order = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = g.us(0, i);
        order.swap(i, j)
    }
    let mut t = String::from("<link");
    for k in order {
        let (n, vs) = &attrs[k];
        if g.chance(if k < 2 { 80 } else { 15 }) {
            let mut v = g.pick(vs).to_string();
            match g.upto(9) {
                0 => {}
                1 => v = (*g.pick(&["", " ", " x ", "0"])).into(),
                _ => v += &g.upto(30).to_string(),
            }
            let n = if xml { n.to_string() } else { recase(n, g, true) };
            t.push_str(&format!(" {}=\"{}\"", n, v));
            if !xml && g.chance(5) {
                t.push_str(&format!(" {}=second", n))
            }
        }
        if xml && g.chance(10) {
            // also before the attribute in no namespace
            let extra = format!(" xlink:{}=\"no\"", n);
            if g.chance(50) {
                t.push_str(&extra)
            } else {
                t.insert_str("<link".len(), &extra)
            }
        }
    }
    t.push_str(if xml { "/>" } else { ">" });
    t
}

fn c10_html(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut html = String::from("<!doctype html>");
    let n = g.us(1, 6);
    for _ in 0..n {
        html.push_str(&soup(g, 5));
        if g.chance(20) {
            html.push_str(*g.pick(&["<!-- ", "<svg>", "<template>", "<table>", "<head>", "<noscript>", "<title>", "<math>"]))
        }
        let l = link(g, false);
        html.push_str(&l);
        if g.chance(10) {
            html.push_str(" --></table></title></noscript></svg>")
        }
    }
    cx.desc(html.clone());
    let dom = RefDom::parse(html.as_bytes());
    let mut expected = vec![];
    dom.walk(0, &mut |n| {
        if let Data::Element { name, attrs, .. } = &dom.nodes[n].data {
            if &*name.local == "link" && &*name.ns == "http://www.w3.org/1999/xhtml" {
                let get = |k: &str| attrs.iter().find(|a| &*a.name.local == k && &*a.name.ns == "").map(|a| a.value.to_string());
                if let (Some(r), Some(h)) = (get("rel"), get("href")) {
                    expected.push((r, h))
                }
            }
        }
    });
    let doc = victor::dom::Document::parse_html(html.as_bytes());
    let actual: Vec<(String, String)> = doc.html_link_elements().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    ensure!(expected == actual, "links", "expected {:?}\nactual   {:?}", expected, actual);
    cx.count("links", actual.len() as u64);
    cx.nontrivial = actual.len() >= 2;
    Ok(())
}

fn c10_xml(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let mut expected = vec![];
    fn go(g: &mut G, depth: usize, ns: usize, out: &mut Vec<(String, String)>) -> String {
        const NS: &[&str] = &["http://www.w3.org/1999/xhtml", "", "http://www.w3.org/2000/svg", "http://www.w3.org/1999/xhtml2"];
        let mut t = String::new();
        let mut n = 0;
        while n < 5 && g.chance(70) {
            n += 1;
            match g.weighted(&[5, 4, 2]) {
                0 => {
                    let l = link(g, true);
                    // in the namespace of the parent, that of a prefix, or another default one
                    let (l, in_html) = match g.upto(5) {
                        0 => (l.replacen("<link", "<h:link", 1), true),
                        1 => (l.replacen("<link", "<s:link", 1), false),
                        2 => {
                            let k = g.us(0, 3);
                            (l.replacen("<link", &format!("<link xmlns=\"{}\"", NS[k]), 1), k == 0)
                        }
                        3 => (l.replacen("<link", "<links", 1), false),
                        _ => (l, ns == 0),
                    };
                    let get = |k: &str| {
                        let p = format!(" {}=\"", k);
                        l.find(&p).map(|i| {
                            let r = &l[i + p.len()..];
                            r[..r.find('"').unwrap()].replace("&amp;", "&")
                        })
                    };
                    if in_html {
                        if let (Some(r), Some(h)) = (get("rel"), get("href")) {
                            out.push((r, h))
                        }
                    }
                    t.push_str(&l)
                }
                1 if depth < 4 => {
                    let k = g.us(0, 3);
                    if g.chance(40) {
                        let inner = go(g, depth + 1, k, out);
                        t.push_str(&format!("<a xmlns=\"{}\">{}</a>", NS[k], inner))
                    } else {
                        let inner = go(g, depth + 1, ns, out);
                        t.push_str(&format!("<b>{}</b>", inner))
                    }
                }
                _ => t.push_str(*g.pick(&["text", "<!-- <link rel='a' href='b'/> -->", "<![CDATA[<link rel='a' href='b'/>]]>", "<?x <link rel='a' href='b'/>?>", " "])),
            }
        }
        t
    }
    let inner = go(g, 0, 0, &mut expected);
    let xml = format!("<html xmlns=\"http://www.w3.org/1999/xhtml\" xmlns:h=\"http://www.w3.org/1999/xhtml\" xmlns:s=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">{}</html>", inner);
    cx.desc(xml.clone());
    let doc = match victor::dom::Document::parse_xml(xml.as_bytes()) {
        Ok(d) => d,
        Err(e) => return fail("xml-refused", format!("{}", e)),
    };
    let actual: Vec<(String, String)> = doc.html_link_elements().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    ensure!(expected == actual, "links", "expected {:?}\nactual   {:?}", expected, actual);
    cx.count("links", actual.len() as u64);
    cx.nontrivial = actual.len() >= 2;
    Ok(())
}
pub fn links() -> Prop {
    Prop {
        id: "C10",
        rule: "a case is a document; non-trivial if it has at least two link elements with both attributes",
        assumptions: &["the tokenizer and tree construction of html5ever conform to the HTML specification"],
        parts: vec![part("html", 500_000, 5_000_000, c10_html), part("xml", 500_000, 5_000_000, c10_xml)],
    }
}

// ---------------------------------------------------------------- C11

use crate::models::dom::{El, Node};

const XHTML: &str = "http://www.w3.org/1999/xhtml";
const SVG: &str = "http://www.w3.org/2000/svg";
const MATHML: &str = "http://www.w3.org/1998/Math/MathML";

struct Xml<'g> {
    g: &'g mut G,
    out: String,
    next_id: usize,
    left: usize,
    attrs: HashMap<usize, Vec<Decl>>,
    sheets: HashMap<usize, Vec<Rule>>,
    /// namespaces other than XHTML, CDATA sections, processing instructions, references, prefixes
    features: [u64; 5],
}

impl<'g> Xml<'g> {
    fn ws(&mut self) {
        let w = *self.g.pick(&["", "", "", " ", "\n", "\t "]);
        self.out.push_str(w)
    }
    fn chars(&mut self, t: &str, in_text: bool) {
        for c in t.chars() {
            match c {
                '<' | '&' | '>' | '"' | '\'' => {
                    self.features[3] += 1;
                    let named = match c {
                        '<' => "lt",
                        '&' => "amp",
                        '>' => "gt",
                        '"' => "quot",
                        _ => "apos",
                    };
                    if matches!(c, '>' | '"' | '\'') && in_text && self.g.chance(50) && !self.out.ends_with(']') {
                        self.out.push(c)
                    } else {
                        let t = match self.g.upto(3) {
                            0 => format!("&#{};", c as u32),
                            1 => format!("&#x{:x};", c as u32),
                            _ => format!("&{};", named),
                        };
                        self.out.push_str(&t)
                    }
                }
                c if c > ' ' && self.g.chance(3) => {
                    self.features[3] += 1;
                    let t = if self.g.chance(50) { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) };
                    self.out.push_str(&t)
                }
                c => self.out.push(c),
            }
        }
    }
    /// one run of character data, in one of the ways to write it
    fn text(&mut self, t: &str) {
        if self.g.chance(25) && !t.contains("]]>") {
            self.features[1] += 1;
            self.out.push_str(&format!("<![CDATA[{}]]>", t))
        } else {
            self.chars(t, true)
        }
    }
    fn misc(&mut self) {
        if self.g.chance(8) {
            let t = *self.g.pick(&["<!-- c -->", "<!--<a>-->", "<!-- &x; -->", "<?p?>", "<?p a <b> ?>", "<!---->"]);
            if t.starts_with("<?") {
                self.features[2] += 1
            }
            self.out.push_str(t)
        }
    }
    /// Write an element.  `default` is the default namespace here.
    fn element(&mut self, depth: usize, default: &'static str, sheet: Option<Vec<Rule>>) -> El {
        let ns: &'static str = if depth == 0 {
            if self.g.chance(70) {
                XHTML
            } else {
                *self.g.pick(&["", "urn:x", SVG])
            }
        } else if sheet.is_some() {
            XHTML
        } else {
            *self.g.pick(&[XHTML, XHTML, XHTML, XHTML, "", "urn:x", SVG, MATHML])
        };
        let name: &str = if sheet.is_some() {
            "style"
        } else if ns == XHTML {
            if depth == 0 {
                "html"
            } else {
                *self.g.pick(&["div", "span", "p", "em", "blockquote", "x-y", "section"])
            }
        } else {
            self.features[0] += 1;
            *self.g.pick(&["x", "foo", "span", "é", "a.b"])
        };
        let mut e = El::new(name);
        e.id = self.next_id;
        self.next_id += 1;
        // The tag
        self.out.push('<');
        let mut inner = default;
        let mut qname = name.to_string();
        let mut declare = None;
        let prefix = match ns {
            XHTML => "h",
            SVG => "s",
            MATHML => "m",
            "urn:x" => "x",
            _ => "",
        };
        if ns == default && self.g.chance(80) {
            // inherited
        } else if prefix.is_empty() || self.g.chance(50) {
            inner = ns;
            declare = Some(("xmlns".to_string(), ns))
        } else {
            self.features[4] += 1;
            qname = format!("{}:{}", prefix, name);
            if depth > 0 && self.g.chance(20) {
                // another prefix, declared here
                qname = format!("q{}:{}", depth, name);
                declare = Some((format!("xmlns:q{}", depth), ns))
            }
        }
        self.out.push_str(&qname);
        let mut attrs: Vec<(String, String)> = vec![];
        if let Some((k, v)) = declare {
            attrs.push((k, v.into()))
        }
        if depth == 0 {
            for (p, ns) in &[("h", XHTML), ("s", SVG), ("m", MATHML), ("x", "urn:x")] {
                attrs.push((format!("xmlns:{}", p), ns.to_string()))
            }
        }
        let mut real = vec![];
        if sheet.is_none() {
            for k in &["id", "class", "title", "data-é"] {
                if self.g.chance(25) {
                    let v = self.g.pick(&["a", "b", "c", "a b", "é", "x<y", "\"q'", "a&amp;", ""]).to_string();
                    real.push((k.to_string(), v))
                }
                if self.g.chance(10) {
                    // in a namespace: not what [k] selects
                    attrs.push((format!("x:{}", k), "a".into()))
                }
            }
            if self.g.chance(40) {
                let n = self.g.us(1, 3);
                let ds: Vec<Decl> = (0..n).map(|_| some_decl(self.g)).collect();
                real.push(("style".into(), block_text(&ds, self.g, false)));
                if matches!(ns, XHTML | SVG | MATHML) {
                    self.attrs.insert(e.id, ds);
                }
            }
        } else if self.g.chance(20) {
            real.push(("type".into(), "text/css".into()))
        }
        e.attrs = real.clone();
        attrs.extend(real);
        for i in (1..attrs.len()).rev() {
            let j = self.g.us(0, i);
            attrs.swap(i, j)
        }
        for (k, v) in attrs {
            self.out.push_str(*self.g.pick(&[" ", " ", "\n", "  "]));
            self.out.push_str(&k);
            self.ws();
            self.out.push('=');
            self.ws();
            let q = if self.g.chance(30) { '\'' } else { '"' };
            self.out.push(q);
            self.chars(&v, false);
            self.out.push(q);
        }
        self.ws();
        let start = self.out.len();
        self.out.push('>');
        // Contents
        if let Some(rules) = sheet {
            let mut t = String::new();
            for r in &rules {
                t.push_str(&rule_text(r, self.g, false))
            }
            // possibly in pieces
            let k = self.g.us(0, t.len());
            let k = (0..=k).rev().find(|k| t.is_char_boundary(*k)).unwrap();
            let (a, b) = t.split_at(k);
            self.text(a);
            self.misc();
            self.text(b);
            e.push(Node::Text(t.clone()));
            self.sheets.insert(e.id, rules);
        } else {
            let mut n = 0;
            let mut text = String::new();
            while n < 8 && self.g.chance(if depth == 0 { 80 } else { 60 }) {
                n += 1;
                let s = self.g.rec.len();
                self.misc();
                match self.g.weighted(&[5, 5, 1]) {
                    0 => {
                        let t = *self.g.pick(&["x", "ab ", " ", "\n  ", "é", "<", "&lt;", "a>b", "W", "\u{1F600}", "\"", "]"]);
                        self.text(t);
                        text.push_str(t)
                    }
                    k if self.left > 0 && depth < 6 => {
                        self.left -= 1;
                        if !text.is_empty() {
                            e.push(Node::Text(std::mem::replace(&mut text, String::new())))
                        }
                        let sheet = if k == 2 {
                            let n = self.g.us(1, 3);
                            Some((0..n).map(|_| some_rule(self.g)).collect())
                        } else {
                            None
                        };
                        let c = self.element(depth + 1, inner, sheet);
                        e.push(Node::El(c))
                    }
                    _ => {}
                }
                let end = self.g.rec.len();
                self.g.spans.push((s, end));
            }
            if !text.is_empty() {
                e.push(Node::Text(text))
            }
        }
        self.misc();
        if self.out.len() == start + 1 && self.g.chance(70) {
            self.out.truncate(start);
            self.out.push_str("/>")
        } else {
            self.out.push_str("</");
            self.out.push_str(&qname);
            self.ws();
            self.out.push('>')
        }
        e
    }
    fn doc(g: &'g mut G) -> (Doc, String, [u64; 5]) {
        let left = g.us(1, 12);
        let mut x = Xml { g, out: String::new(), next_id: 1, left, attrs: HashMap::new(), sheets: HashMap::new(), features: [0; 5] };
        let decl = *x.g.pick(&["", "", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>"]);
        x.out.push_str(decl);
        for _ in 0..2 {
            x.misc();
            x.ws()
        }
        if x.g.chance(20) {
            x.out.push_str("<!DOCTYPE html>");
            x.ws()
        }
        let default = "";
        let root = x.element(0, default, None);
        x.ws();
        x.misc();
        x.ws();
        let mut rules = vec![hide_styles()];
        let mut sheets = std::mem::replace(&mut x.sheets, HashMap::new());
        fn order(e: &El, sheets: &mut HashMap<usize, Vec<Rule>>, out: &mut Vec<Rule>) {
            if let Some(r) = sheets.remove(&e.id) {
                out.extend(r)
            }
            for c in &e.children {
                if let Node::El(e) = c {
                    order(e, sheets, out)
                }
            }
        }
        order(&root, &mut sheets, &mut rules);
        // (that rule is only there if some sheet is, and is not needed otherwise)
        (Doc { root, rules, attrs: x.attrs }, x.out, x.features)
    }
}
fn hide_styles() -> Rule {
    Rule { selectors: vec![], decls: vec![] }
}
fn some_decl(g: &mut G) -> Decl {
    let lh = *g.pick(&[Lh::Bg, Lh::Color, Lh::Padding(0), Lh::Padding(3), Lh::Display]);
    let v = match lh {
        Lh::Bg | Lh::Color => Sv::Rgba(color(g)),
        Lh::Display => Sv::Disp(Disp::Block),
        _ => Sv::Px(*g.pick(&[1., 5., 10.])),
    };
    decl(lh, v, g.chance(10), g, false)
}
fn some_rule(g: &mut G) -> Rule {
    let s = match g.upto(6) {
        0 => Simple::Type(g.pick(&["div", "span", "x", "foo", "é", "a.b"]).to_string()),
        1 => Simple::Id(g.pick(&["a", "b"]).to_string()),
        2 => Simple::Class(g.pick(&["a", "b", "é"]).to_string()),
        3 => Simple::Attr { name: "title".into(), op: *g.pick(&[Op::Exists, Op::Eq]), value: g.pick(&["a", "x<y", "\"q'", "a&amp;"]).to_string(), flag: Flag::None },
        4 => Simple::Attr { name: "data-é".into(), op: Op::Exists, value: String::new(), flag: Flag::None },
        5 => Simple::First,
        _ => Simple::Univ,
    };
    let mut sel = Selector::simple(s);
    if g.chance(30) {
        sel.rest.push((Comb::Child, vec![Simple::Univ]))
    }
    let n = g.us(1, 2);
    Rule { selectors: vec![sel], decls: (0..n).map(|_| some_decl(g)).collect() }
}

fn c11_tree(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (doc, xml, features) = Xml::doc(g);
    // Sheets are displayed if a rule says so: no such case
    if check_source(&doc, &xml, true, cx, false)?.is_some() {
        cx.nontrivial = features.iter().filter(|f| **f > 0).count() >= 2
    }
    for (n, l) in features.iter().zip(&["elements outside of XHTML", "CDATA sections", "processing instructions", "references", "prefixed elements"]) {
        cx.count(l, *n)
    }
    Ok(())
}

/// Break a well-formed document
fn c11_errors(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (_, xml, _) = Xml::doc(g);
    let mut b = xml.clone().into_bytes();
    // places right after the start tag of the root, and in between its descendants
    let root_start = {
        let t = xml.find("xmlns").unwrap_or(0);
        xml[t..].find('>').unwrap() + t
    };
    let has_contents = b[root_start - 1] != b'/';
    let end = xml.rfind("</").unwrap_or(0);
    let kind = g.upto(17);
    let root_lt = {
        // the root start tag is the first '<' followed by a name, outside of comments
        let mut i = 0;
        loop {
            let r = &xml[i..];
            if r.starts_with("<!--") {
                i += r.find("-->").unwrap() + 3
            } else if r.starts_with("<?") {
                i += r.find("?>").unwrap() + 2
            } else if r.starts_with("<!D") {
                i += r.find('>').unwrap() + 1
            } else if r.starts_with('<') {
                break i;
            } else {
                i += r.chars().next().unwrap().len_utf8()
            }
        }
    };
    let root_name_end = root_lt + xml[root_lt..].find(|c: char| c.is_whitespace()).unwrap();
    let mut ins = |at: usize, t: &str| {
        b.splice(at..at, t.bytes());
    };
    let what = match kind {
        0 => {
            let k = g.us(root_lt + 1, xml.trim_end().rfind('>').unwrap());
            // (before the end tag of the root)
            let k = if has_contents { k.min(end + 2) } else { k.min(root_start) };
            b.truncate(k);
            "truncated"
        }
        1 => {
            ins(xml.len(), "<x/>");
            "two roots"
        }
        2 => {
            ins(xml.len(), "text");
            "text after the root"
        }
        3 => {
            ins(root_lt, "text");
            "text before the root"
        }
        4 => {
            ins(root_name_end, " dup='1' dup='2'");
            "duplicate attribute"
        }
        5 => {
            ins(root_name_end, " a=b");
            "unquoted attribute"
        }
        6 => {
            ins(root_name_end, " a='<'");
            "less-than sign in an attribute"
        }
        7 => {
            ins(root_name_end, " a='&nope;'");
            "unknown entity in an attribute"
        }
        8 => {
            ins(root_name_end, " nope:a='b'");
            "undeclared prefix of an attribute"
        }
        9 => {
            ins(root_name_end, " novalue");
            "attribute without value"
        }
        10 => {
            ins(xml.len(), "</x>");
            "end tag after the root"
        }
        11 => {
            b.clear();
            let t = *g.pick(&["", " ", "<!-- c -->", "<?xml version='1.0'?>", "<?p?>", "text", "\n\n", "<!DOCTYPE html>"]);
            b.extend(t.bytes());
            "no root"
        }
        k if has_contents => match k {
            12 => {
                ins(root_start + 1, *g.pick(&["<b></a>", "<b><c></b></c>", "<b>", "</b>", "<b></b ></b>", "<b/></b>"]));
                "mismatched tags"
            }
            13 => {
                ins(root_start + 1, *g.pick(&["&nope;", "&", "& ", "&#xZZ;", "&#;", "&;", "&#x110000;", "&lt", "&nbsp;"]));
                "bad reference"
            }
            14 => {
                ins(root_start + 1, *g.pick(&["<nope:b/>", "<nope:b></nope:b>"]));
                "undeclared prefix"
            }
            15 => {
                ins(root_start + 1, *g.pick(&["< b/>", "<1/>", "<-a/>", "<b/ >", "<>", "</>", "<b <c/>", "<b c=/>", "<b c='/>"]));
                "bad tag"
            }
            16 => {
                b.splice(root_start + 1..root_start + 1, g.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\x80", b"\xf8\x88\x80\x80\x80"]).iter().cloned());
                "invalid UTF-8"
            }
            _ => {
                // (something later may close it)
                let rest = &xml[root_start..];
                let mut all = vec!["<!-- a -- b -->"];
                for (open, close) in &[("<!-- a", "-->"), ("<![CDATA[ x", "]]>"), ("<?p ", "?>")] {
                    if !rest.contains(close) {
                        all.push(open)
                    }
                }
                ins(root_start + 1, *g.pick(&all));
                "unclosed or bad comment, CDATA section or processing instruction"
            }
        },
        _ => {
            cx.discarded = true;
            return Ok(());
        }
    };
    cx.label(what);
    cx.nontrivial = true;
    cx.desc(format!("{}: {}", what, String::from_utf8_lossy(&b)));
    match victor::dom::Document::parse_xml(&b) {
        Err(e) => {
            // The error can be shown
            let s = e.to_string();
            ensure!(!s.is_empty(), "empty-error", "no message");
            Ok(())
        }
        Ok(_) => fail("ill-formed-accepted", format!("ill-formed XML accepted ({})", what)),
    }
}

/// Arbitrary edits: an error or a document that can be rendered
fn c11_robust(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (_, xml, _) = Xml::doc(g);
    let mut b = xml.into_bytes();
    let n = g.us(1, 4);
    for _ in 0..n {
        let i = g.us(0, b.len());
        let j = (i + g.upto(6) as usize).min(b.len());
        let t: Vec<u8> = if g.chance(50) {
            g.pick(&[&b"<"[..], b">", b"/", b"&", b";", b"<!--", b"-->", b"]]>", b"<![CDATA[", b"?>", b"<?", b"'", b"\"", b"=", b":", b"xmlns", b" ", b"<!DOCTYPE x [<!ENTITY a 'b'>]>", b"&a;", b"\0", b"\xff"]).to_vec()
        } else if b.is_empty() {
            vec![]
        } else {
            let k = g.us(0, b.len() - 1);
            let m = (k + g.upto(30) as usize).min(b.len());
            b[k..m].to_vec()
        };
        b.splice(i..j, t);
    }
    cx.desc(String::from_utf8_lossy(&b).into_owned());
    match victor::dom::Document::parse_xml(&b) {
        Err(e) => {
            cx.label("refused");
            let _ = format!("{} {:?}", e, e);
        }
        Ok(d) => {
            cx.label("accepted");
            super::common::one_page(&d.to_pdf_bytes())?;
            let _ = d.html_link_elements().count();
        }
    }
    cx.nontrivial = true;
    Ok(())
}

pub fn xml() -> Prop {
    Prop {
        id: "C11",
        rule: "a case is an XML document; non-trivial if, in `tree`, it has two of: elements outside of XHTML, CDATA sections, processing instructions, references, prefixed names; every edited document in `errors` and `robust`",
        assumptions: &["xml-rs checks well-formedness"],
        parts: vec![part("tree", 140_000, 2_000_000, c11_tree), part("errors", 100_000, 3_000_000, c11_errors), part("robust", 100_000, 3_000_000, c11_robust)],
    }
}
