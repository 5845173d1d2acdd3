//! C01: anything given as HTML renders to a well-formed page.
use super::common::*;
use super::css::{any_decl, rule_text};
use super::decls::*;
use super::page::*;
use crate::engine::*;
use crate::models::css::*;
use crate::models::sel::*;

const NUMBERS: &[&str] = &[
    "0", "-0", "1e38", "-1e38", "1e39", "-1e39", "3.4e38", "1e-45", "1e-38", "99999999999", "2147483648", "-2147483649", "65536", "1e10", "-1e10",
    "1e20", "16777217", "0.1", "0.0000001", "1e308", "1e309", "1e400", "-1", "33.333", "+.5", "1e-7", "123456789.123456789",
];

fn extreme_decl(g: &mut G) -> String {
    let name = *g.pick(&[
        "width", "height", "margin", "margin-left", "margin-right", "margin-top", "margin-bottom", "padding", "padding-left", "padding-top",
        "border-width", "border-top-width", "border-left-width", "font-size", "top", "left", "bottom", "right", "border-top",
    ]);
    let n = *g.pick(NUMBERS);
    let unit = *g.pick(&["px", "em", "%", ""]);
    let style = if name.starts_with("border") { ";border-style:solid" } else { "" };
    format!("{}:{}{}{}", name, n, unit, style)
}

/// A document with unusual and extreme values in style attributes
pub fn style_source(g: &mut G) -> (String, u64) {
    let k = Knobs { max_elements: 30, relative: 20, auto: 30, negative: 30, inline_axis: 25, words: 3, kinds: [30, 30, 25, 8, 8, 3, 25, 2], ..BASE };
    let mut doc = PageGen::doc(g, &k);
    let mut n = 0;
    fn go(e: &mut crate::models::dom::El, g: &mut G, n: &mut u64) {
        if g.chance(50) {
            let mut t = e.attr("style").unwrap_or("").to_string();
            let m = g.us(1, 4);
            for _ in 0..m {
                t.push(';');
                let mut four = true;
                let d = match g.upto(9) {
                    0 | 1 => any_decl(g, true, 10, &mut four).text,
                    2 => format!("float:{}", g.pick(&["left", "right", "none"])),
                    3 => format!("display:{}", g.pick(&["inline", "block", "flow-root", "contents", "none"])),
                    4 => format!("position:{}", g.pick(&["absolute", "relative", "static"])),
                    _ => extreme_decl(g),
                };
                *n += 1;
                t.push_str(&d)
            }
            e.attrs.retain(|a| a.0 != "style");
            e.attrs.push(("style".into(), t))
        }
        for c in &mut e.children {
            if let crate::models::dom::Node::El(e) = c {
                go(e, g, n)
            }
        }
    }
    go(&mut doc.root, g, &mut n);
    (html_text(&doc), n)
}

fn c01_style(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (html, n) = style_source(g);
    cx.desc(html.clone());
    html_page(html.as_bytes())?;
    cx.nontrivial = n >= 3;
    Ok(())
}

const DICT: &[&str] = &[
    "<", ">", "</", "/>", "<!--", "-->", "<style>", "</style>", "<div style=\"", "\"", "'", "=", "<table>", "<tr>", "<td>", "<p>", "</p>", "<b>", "</b>",
    "<a>", "</a>", "<svg>", "<math>", "<select>", "<template>", "</template>", "<script>", "</script>", "<textarea>", "<title>", "<plaintext>", "<frameset>",
    "<html>", "<body>", "</body>", "</html>", "<!doctype html>", "&amp;", "&#0;", "&#x110000;", "&", "\0", "\u{feff}", "\u{1F600}", "é", "display:none", "display:contents",
    "display:inline", "display:block", "position:absolute", "position:relative", "float:left", "{", "}", ";", ":", "!important", "*", "[", "]", "(", ")", "\\", "@media", "/*", "*/",
    "url(", "#", ".", ">", "+", "~", ":not(", ":nth-child(", "2n+1", "inherit", "margin:", "padding:", "1e39px", "-1px", "50%", "auto", " ", "\n", "\r", "\x0c", "<br>", "<span>", "<input type=hidden>",
    "<link rel=x href=y>", "<col>", "<![CDATA[", "<?", "hidden", "class=", "id=", "font-size:0", "font-size:1e38px",
];

/// Something that is almost one of the words that matter somewhere
fn near_miss(g: &mut G) -> String {
    const WORDS: &[&str] = &[
        "<style type=\"text/css\">", "<style type=text/css>", "text/css", "<link rel=stylesheet href=x>", "hidden", "id=a", "class=\"a b\"", "style=\"", "lang=en",
        "display:inline", "display:block", "display:flow-root", "display:contents", "display:none", "position:absolute", "position:relative", "float:left",
        "width:50%", "height:auto", "margin:1px 2px 3px 4px", "margin-left:auto", "padding:1em", "border:1px solid red", "border-style:none", "border-width:thick",
        "border-left-color:currentcolor", "background:transparent", "background-color:#12345678", "background-color:#abc", "color:rgb(1,2,3)", "color:rgba(1 2 3 / 50%)",
        "color:hsl(120deg,50%,50%)", "color:inherit", "font-size:1.5e1px", "top:unset", "left:initial", "!important", "@import \"x\";", "@media print{}",
        ":nth-child(2n+1)", ":nth-last-of-type(odd)", ":first-child", ":not(a)", ":empty", ":root", "[a=b i]", "[a~=\"b\"]", "[*|a]", "a|b", "*|*", "::before", "&eacute;",
        "&#x41;", "<!--x-->", "<svg viewBox=\"0\">", "<foreignObject>", "<!doctype html public \"-//w3c//dtd html 4.01//en\">", "<meta charset=utf-8>",
    ];
    let mut t: Vec<char> = g.pick(WORDS).chars().collect();
    for _ in 0..g.us(1, 2) {
        let i = g.us(0, t.len().saturating_sub(1));
        let c = *g.pick(&['é', '漢', '😀', '\u{307}', '\u{130}', '\u{212a}', '\0', '\u{a0}', '\u{feff}', ' ', '-', '%', '\\', '"', '9']);
        match g.upto(5) {
            0 | 1 if i < t.len() => t[i] = c,
            2 => t.insert(i, c),
            3 if i < t.len() => {
                t.remove(i);
            }
            4 => t.truncate(i),
            _ if i < t.len() => {
                let x = t[i];
                t.insert(i, x)
            }
            _ => {}
        }
    }
    t.into_iter().collect()
}

/// Any bytes: a document with edits
pub fn bytes_source(g: &mut G) -> (Vec<u8>, usize) {
    let mut b: Vec<u8>;
    if g.chance(60) {
        let k = Knobs { max_elements: 12, ..BASE };
        let doc = PageGen::doc(g, &k);
        let mut t = html_text(&doc);
        if g.chance(50) {
            let sel = Selector::simple(if g.chance(50) { Simple::Univ } else { Simple::Type("div".into()) });
            let mut four = true;
            let ds: Vec<Decl> = (0..2).map(|_| any_decl(g, true, 10, &mut four)).collect();
            let r = Rule { selectors: vec![sel], decls: ds };
            t.push_str("<style>");
            t.push_str(&rule_text(&r, g, true));
            t.push_str("</style>");
        }
        b = t.into_bytes()
    } else {
        b = vec![]
    }
    if g.chance(25) {
        // at places where such words are
        for _ in 0..g.us(1, 3) {
            let places: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i], b'<' | b'{' | b';' | b'"' | b' ' | b'>')).collect();
            let at = if places.is_empty() { 0 } else { *g.pick(&places) + 1 };
            let t = near_miss(g);
            b.splice(at..at, t.bytes());
        }
    }
    if g.chance(5) {
        // the type of a style sheet
        let t = near_miss(g);
        let t = if t.contains('/') { t.replace('"', "") } else { "text/css".replace(*g.pick(&['t', 'e', 'x', '/', 'c', 's']), *g.pick(&["é", "漢", "", "tt"])) };
        b.extend_from_slice(format!("<style type=\"{}\">*{{display:block}}</style>", t).as_bytes())
    }
    let n = g.list(0, 8, 60, |g| (g.upto(1 << 20), g.upto(9), g.upto(1 << 20), g.upto(40))).into_iter();
    let mut edits = 0;
    let mut nested = 0;
    for (at, kind, x, len) in n {
        edits += 1;
        let i = at as usize % (b.len() + 1);
        let j = (i + len as usize).min(b.len());
        match kind {
            0..=4 => {
                let t = DICT[x as usize % DICT.len()].bytes();
                b.splice(i..i, t);
            }
            5 => {
                b.drain(i..j);
            }
            6 => {
                // duplicate a part elsewhere
                let t = b[i..j].to_vec();
                let k = x as usize % (b.len() + 1);
                b.splice(k..k, t);
            }
            7 => {
                let t = [x as u8];
                b.splice(i..i, t.iter().cloned());
            }
            8 => {
                let t = DICT[x as usize % DICT.len()].bytes();
                b.splice(i..j.min(i + 3), t);
            }
            _ => {
                // nest
                let t = DICT[x as usize % DICT.len()];
                let many = len.min(150 - nested.min(150));
                nested += many;
                let t: String = (0..many).map(|_| t).collect();
                b.splice(i..i, t.bytes());
            }
        }
    }
    (b, edits)
}

fn c01_bytes(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (b, edits) = bytes_source(g);
    cx.desc(String::from_utf8_lossy(&b).into_owned());
    html_page(&b)?;
    cx.nontrivial = edits >= 3;
    Ok(())
}

/// Documents that are large in one way: nested levels, siblings, words, rules, attributes
pub fn large_source(g: &mut G) -> (String, u64, &'static str) {
    let style = |g: &mut G| {
        let n = g.us(0, 3);
        let mut t = String::new();
        for _ in 0..n {
            let mut four = true;
            t.push_str(&match g.weighted(&[6, 4, 3, 2, 2, 3]) {
                0 => format!("display:{}", g.pick(&["inline", "block", "flow-root", "contents"])),
                1 => format!("position:{}", g.pick(&["absolute", "relative", "static"])),
                2 => format!("{}:{}", g.pick(&["width", "height", "margin", "padding", "top", "left", "bottom"]), g.pick(&["auto", "50%", "1px", "10px", "-1px", "100%", "2em"])),
                3 => format!("float:{}", g.pick(&["left", "right"])),
                4 => extreme_decl(g),
                _ => any_decl(g, true, 10, &mut four).text,
            });
            t.push(';')
        }
        if t.is_empty() || t.contains('"') {
            String::new()
        } else {
            format!(" style=\"{}\"", t)
        }
    };
    const TAGS: &[&str] = &["div", "span", "div", "span", "p", "b", "a", "i", "font", "table", "ul", "li", "button", "h1", "svg", "select", "x-y", "td", "title", "template"];
    let tag = |g: &mut G| -> (String, &'static str) {
        let name = if g.chance(70) { *g.pick(&TAGS[..4]) } else { *g.pick(TAGS) };
        (format!("<{}{}>", name, style(g)), name)
    };
    let mut t = String::from("<!doctype html>");
    let n = if g.chance(70) { g.us(20, 120) } else { g.us(100, 300) };
    let what = match g.weighted(&[6, 2, 1, 1, 1]) {
        0 => {
            let n = n.min(200);
            // a period of levels, repeated, with something before and after the content of some of them
            let period: Vec<_> = (0..g.us(1, 4))
                .map(|_| (tag(g), *g.pick(&["", "", "", "a ", " ", "a b", "<i></i>", "<b>x</b>", "<!-- -->"]), *g.pick(&["", "", "", " a", "<b></b>", "a"]), g.chance(85)))
                .collect();
            for i in 0..n {
                let p = &period[i % period.len()];
                t.push_str(&(p.0).0);
                t.push_str(p.1);
            }
            t.push_str("<p style=\"width:3px;height:5px;background:red\">x</p>");
            for i in (0..n).rev() {
                let p = &period[i % period.len()];
                t.push_str(p.2);
                if p.3 {
                    t.push_str(&format!("</{}>", (p.0).1))
                }
            }
            "levels"
        }
        1 => {
            let m = g.us(1, 4);
            let tags: Vec<_> = (0..m).map(|_| (tag(g), *g.pick(&["", "a", " ", "a b c", "<i></i>", "<b>x</b> "]), g.chance(80))).collect();
            let outer = tag(g);
            t.push_str(&outer.0);
            for i in 0..4 * n {
                let p = &tags[i % m];
                t.push_str(&(p.0).0);
                t.push_str(p.1);
                if p.2 || i % 100 > 50 || i > 200 {
                    t.push_str(&format!("</{}>", (p.0).1))
                }
            }
            "siblings"
        }
        2 => {
            let (open, name) = tag(g);
            let word = *g.pick(&["a ", "aaaaaaaaaa", "é\u{a0}", "\t", "a\n", "\u{1F600}\u{200b}", "-"]);
            t.push_str(&open);
            for _ in 0..20 * n {
                t.push_str(word)
            }
            t.push_str(&format!("</{}>x", name));
            "a long text"
        }
        3 => {
            t.push_str("<style>");
            for i in 0..n {
                let s = *g.pick(&["*", "div", "div div", "div > p", "p + p", "p ~ p", ":not(p)", ":nth-child(2n+1)", "div div div div", "[style]", "*{", "@x{"]);
                t.push_str(&format!("{}{{{}:{}px;width:{}%}}", s, g.pick(&["margin", "padding", "height"]), i, i));
            }
            t.push_str("</style>");
            t.push_str("<div>".repeat(n / 4).as_str());
            t.push_str("<p>a</p>".repeat(n / 4).as_str());
            "rules"
        }
        _ => {
            t.push_str("<div");
            for i in 0..n {
                t.push_str(&format!(" a{}=\"{}\"", i, i))
            }
            t.push_str(" style=\"");
            for _ in 0..n {
                t.push_str(&extreme_decl(g).replace('"', ""));
                t.push(';')
            }
            t.push_str("\">x<p>y");
            "attributes and declarations"
        }
    };
    (t, n as u64, what)
}

fn c01_large(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let (html, n, what) = large_source(g);
    cx.desc(html.clone());
    cx.label(what);
    cx.nontrivial = n >= 40;
    // with the stack of a main thread, and (see below) little more than that of a default pool of threads
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || html_page(html.as_bytes()).map(|_| ())).unwrap();
    t.join().unwrap_or_else(|p| std::panic::resume_unwind(p))
}

pub fn html() -> Prop {
    let mut large = part("large", 12_000, 300_000, c01_large);
    large.stack = 3;
    let mut bytes = part("bytes", 90_000, 3_000_000, c01_bytes);
    bytes.guided = 50;
    Prop {
        id: "C01",
        rule: "a case is a document; non-trivial if at least three declarations with extreme or unusual values (`style`), or three edits (`bytes`), are made, or if there are at least 40 levels (`large`: or siblings and so on)",
        assumptions: &["elements are nested at most a few hundred levels deep"],
        parts: vec![part("style", 90_000, 3_000_000, c01_style), bytes, large],
    }
}
