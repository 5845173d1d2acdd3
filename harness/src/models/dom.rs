//! A plain element tree: the generator's view of a document, and its HTML serialisation.

#[derive(Clone, Debug)]
pub enum Node {
    El(El),
    Text(String),
    Comment(String),
}

#[derive(Clone, Debug, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Node>,
    /// unique number in tree order, given by `number`
    pub id: usize,
    /// in an XML document: the case of names matters
    pub xml: bool,
}

impl El {
    pub fn new(name: &str) -> El {
        El { name: name.into(), ..Default::default() }
    }
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == name).map(|a| &*a.1)
    }
    pub fn push(&mut self, n: Node) {
        self.children.push(n)
    }
    pub fn count(&self) -> usize {
        1 + self.children.iter().map(|c| if let Node::El(e) = c { e.count() } else { 0 }).sum::<usize>()
    }
}

pub fn number(e: &mut El, next: &mut usize) {
    e.id = *next;
    *next += 1;
    for c in &mut e.children {
        if let Node::El(e) = c {
            number(e, next)
        }
    }
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr",
];

pub fn escape_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            c => o.push(c),
        }
    }
    o
}
pub fn escape_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

pub fn html(e: &El, out: &mut String) {
    out.push('<');
    out.push_str(&e.name);
    for (k, v) in &e.attrs {
        out.push(' ');
        out.push_str(k);
        if !v.is_empty() {
            out.push_str("=\"");
            out.push_str(&escape_attr(v));
            out.push('"');
        }
    }
    out.push('>');
    if VOID.contains(&&*e.name) {
        return;
    }
    let raw = e.name == "style" || e.name == "script";
    for c in &e.children {
        match c {
            Node::El(e) => html(e, out),
            Node::Text(t) if raw => out.push_str(t),
            Node::Text(t) => out.push_str(&escape_text(t)),
            Node::Comment(t) => {
                out.push_str("<!--");
                out.push_str(t);
                out.push_str("-->");
            }
        }
    }
    out.push_str("</");
    out.push_str(&e.name);
    out.push('>');
}

pub fn xml(e: &El, out: &mut String, root: bool) {
    out.push('<');
    out.push_str(&e.name);
    if root {
        out.push_str(" xmlns=\"http://www.w3.org/1999/xhtml\"");
    }
    for (k, v) in &e.attrs {
        out.push(' ');
        out.push_str(k);
        out.push_str("=\"");
        out.push_str(&escape_attr(v).replace('<', "&lt;").replace('\n', "&#10;").replace('\t', "&#9;"));
        out.push('"');
    }
    if e.children.is_empty() {
        out.push_str("/>");
        return;
    }
    out.push('>');
    for c in &e.children {
        match c {
            Node::El(e) => xml(e, out, false),
            Node::Text(t) => out.push_str(&escape_text(t)),
            Node::Comment(t) => {
                out.push_str("<!--");
                out.push_str(t);
                out.push_str("-->");
            }
        }
    }
    out.push_str("</");
    out.push_str(&e.name);
    out.push('>');
}
