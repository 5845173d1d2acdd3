//! Independent, strict PDF reader (ISO 32000-1 §7) and content stream interpreter.
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, PartialEq)]
pub enum Obj {
    Null,
    Bool(bool),
    Int(i64),
    Real(f64),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<Obj>),
    Dict(Vec<(Vec<u8>, Obj)>),
    Ref(u32),
}

pub type R<T> = Result<T, String>;

impl Obj {
    pub fn get(&self, k: &str) -> Option<&Obj> {
        match self {
            Obj::Dict(d) => d.iter().find(|e| e.0 == k.as_bytes()).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            Obj::Int(i) => Some(*i as f64),
            Obj::Real(r) => Some(*r),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            Obj::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[Obj]> {
        match self {
            Obj::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn name(&self) -> Option<&[u8]> {
        match self {
            Obj::Name(a) => Some(a),
            _ => None,
        }
    }
}

fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
fn is_delim(b: u8) -> bool {
    b"()<>[]{}/%".contains(&b)
}

pub struct Lex<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Lex<'a> {
    pub fn skip_ws(&mut self) {
        while self.p < self.b.len() {
            let c = self.b[self.p];
            if is_ws(c) {
                self.p += 1
            } else if c == b'%' {
                while self.p < self.b.len() && self.b[self.p] != b'\n' && self.b[self.p] != b'\r' {
                    self.p += 1
                }
            } else {
                break;
            }
        }
    }
    pub fn at_end(&mut self) -> bool {
        self.skip_ws();
        self.p >= self.b.len()
    }
    pub fn regular(&mut self) -> &'a [u8] {
        let s = self.p;
        while self.p < self.b.len() && !is_ws(self.b[self.p]) && !is_delim(self.b[self.p]) {
            self.p += 1
        }
        &self.b[s..self.p]
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let s = self.p.saturating_sub(20);
        let e = (self.p + 20).min(self.b.len());
        Err(format!("{} at byte {} near {:?}", m, self.p, String::from_utf8_lossy(&self.b[s..e])))
    }
    pub fn keyword(&mut self, k: &str) -> R<()> {
        self.skip_ws();
        let w = self.regular();
        if w == k.as_bytes() {
            Ok(())
        } else {
            self.err(&format!("expected {:?}, found {:?}", k, String::from_utf8_lossy(w)))
        }
    }
    /// An object; `refs` allows `n g R`.
    pub fn object(&mut self, refs: bool, depth: u32) -> R<Obj> {
        if depth > 50 {
            return self.err("nesting too deep");
        }
        self.skip_ws();
        if self.p >= self.b.len() {
            return self.err("unexpected end");
        }
        match self.b[self.p] {
            b'/' => {
                self.p += 1;
                let raw = self.regular();
                let mut n = vec![];
                let mut i = 0;
                while i < raw.len() {
                    if raw[i] == b'#' {
                        let h = raw.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| {
                            if h.bytes().all(|c| c.is_ascii_hexdigit()) {
                                u8::from_str_radix(h, 16).ok()
                            } else {
                                None
                            }
                        });
                        match h {
                            Some(v) => n.push(v),
                            None => return self.err("bad # escape in name"),
                        }
                        i += 3;
                    } else {
                        n.push(raw[i]);
                        i += 1;
                    }
                }
                Ok(Obj::Name(n))
            }
            b'(' => {
                self.p += 1;
                let mut depth = 1;
                let mut s = vec![];
                loop {
                    let c = match self.b.get(self.p) {
                        Some(c) => *c,
                        None => return self.err("unterminated string"),
                    };
                    self.p += 1;
                    match c {
                        b'(' => {
                            depth += 1;
                            s.push(c)
                        }
                        b')' => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                            s.push(c)
                        }
                        b'\\' => {
                            let c = match self.b.get(self.p) {
                                Some(c) => *c,
                                None => return self.err("unterminated string"),
                            };
                            self.p += 1;
                            match c {
                                b'n' => s.push(b'\n'),
                                b'r' => s.push(b'\r'),
                                b't' => s.push(b'\t'),
                                b'b' => s.push(8),
                                b'f' => s.push(12),
                                b'0'..=b'7' => {
                                    let mut v = (c - b'0') as u32;
                                    for _ in 0..2 {
                                        match self.b.get(self.p) {
                                            Some(d @ b'0'..=b'7') => {
                                                v = v * 8 + (*d - b'0') as u32;
                                                self.p += 1
                                            }
                                            _ => break,
                                        }
                                    }
                                    s.push(v as u8)
                                }
                                b'\n' => {}
                                c => s.push(c),
                            }
                        }
                        c => s.push(c),
                    }
                }
                Ok(Obj::Str(s))
            }
            b'<' if self.b.get(self.p + 1) == Some(&b'<') => {
                self.p += 2;
                let mut d: Vec<(Vec<u8>, Obj)> = vec![];
                loop {
                    self.skip_ws();
                    if self.b[self.p..].starts_with(b">>") {
                        self.p += 2;
                        break;
                    }
                    let k = match self.object(refs, depth + 1)? {
                        Obj::Name(n) => n,
                        o => return self.err(&format!("dictionary key is not a name: {:?}", o)),
                    };
                    let v = self.object(refs, depth + 1)?;
                    if d.iter().any(|e| e.0 == k) {
                        return self.err("duplicate dictionary key");
                    }
                    d.push((k, v));
                }
                Ok(Obj::Dict(d))
            }
            b'<' => {
                self.p += 1;
                let mut nib = vec![];
                loop {
                    match self.b.get(self.p) {
                        None => return self.err("unterminated hex string"),
                        Some(b'>') => {
                            self.p += 1;
                            break;
                        }
                        Some(c) if is_ws(*c) => self.p += 1,
                        Some(c) => match (*c as char).to_digit(16) {
                            Some(d) => {
                                nib.push(d as u8);
                                self.p += 1
                            }
                            None => return self.err("bad hex digit"),
                        },
                    }
                }
                if nib.len() % 2 == 1 {
                    nib.push(0)
                }
                Ok(Obj::Str(nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect()))
            }
            b'[' => {
                self.p += 1;
                let mut a = vec![];
                loop {
                    self.skip_ws();
                    if self.b.get(self.p) == Some(&b']') {
                        self.p += 1;
                        break;
                    }
                    a.push(self.object(refs, depth + 1)?);
                }
                Ok(Obj::Arr(a))
            }
            c if is_delim(c) => self.err("unexpected delimiter"),
            _ => {
                let start = self.p;
                let w = self.regular();
                match w {
                    b"true" => return Ok(Obj::Bool(true)),
                    b"false" => return Ok(Obj::Bool(false)),
                    b"null" => return Ok(Obj::Null),
                    _ => {}
                }
                let n = match number(w) {
                    Some(n) => n,
                    None => {
                        self.p = start;
                        return self.err(&format!("invalid number or keyword {:?}", String::from_utf8_lossy(w)));
                    }
                };
                if refs {
                    if let Obj::Int(i) = n {
                        if i >= 0 {
                            let save = self.p;
                            self.skip_ws();
                            let g = self.regular();
                            if !g.is_empty() && g.iter().all(|c| c.is_ascii_digit()) {
                                self.skip_ws();
                                if self.regular() == b"R" {
                                    return Ok(Obj::Ref(i as u32));
                                }
                            }
                            self.p = save;
                        }
                    }
                }
                Ok(n)
            }
        }
    }
}

/// PDF numeric object syntax (7.3.3): optional sign, digits, optional point; no exponents.
pub fn number(w: &[u8]) -> Option<Obj> {
    let s = std::str::from_utf8(w).ok()?;
    let body = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
    if body.is_empty() {
        return None;
    }
    let dots = body.bytes().filter(|c| *c == b'.').count();
    if dots > 1 || !body.bytes().all(|c| c.is_ascii_digit() || c == b'.') || body == "." {
        return None;
    }
    if dots == 0 {
        match s.trim_start_matches('+').parse::<i64>() {
            Ok(v) => Some(Obj::Int(v)),
            Err(_) => s.trim_start_matches('+').parse::<f64>().ok().map(Obj::Real),
        }
    } else {
        let t = if body.starts_with('.') { format!("0{}", body) } else { body.to_owned() };
        let t = if t.ends_with('.') { format!("{}0", t) } else { t };
        let v: f64 = t.parse().ok()?;
        Some(Obj::Real(if s.starts_with('-') { -v } else { v }))
    }
}

pub struct Indirect {
    pub value: Obj,
    pub stream: Option<(usize, usize)>,
}

pub struct Pdf<'a> {
    pub bytes: &'a [u8],
    pub objs: BTreeMap<u32, Indirect>,
    pub trailer: Obj,
}

fn digits(b: &[u8]) -> Option<u64> {
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(b).ok()?.parse().ok()
}

pub fn parse(b: &[u8]) -> R<Pdf> {
    if !b.starts_with(b"%PDF-1.") {
        return Err("no %PDF header".into());
    }
    let mut end = b.len();
    while end > 0 && (b[end - 1] == b'\n' || b[end - 1] == b'\r') {
        end -= 1
    }
    if !b[..end].ends_with(b"%%EOF") {
        return Err("no %%EOF at the end".into());
    }
    let tail_start = end.saturating_sub(60);
    let tail = &b[tail_start..end];
    let sx = tail
        .windows(9)
        .rposition(|w| w == b"startxref")
        .ok_or_else(|| "no startxref".to_string())?;
    let mut lx = Lex { b: &b[..end - 5], p: tail_start + sx + 9 };
    lx.skip_ws();
    let off = digits(lx.regular()).ok_or("startxref offset is not a number")? as usize;
    if !lx.at_end() {
        return Err("junk between startxref and %%EOF".into());
    }
    if !b.get(off..).map_or(false, |t| t.starts_with(b"xref")) {
        return Err(format!("startxref {} does not point to an xref table", off));
    }
    // xref table
    let mut p = off + 4;
    let eol = |p: &mut usize| -> R<()> {
        if b[*p..].starts_with(b"\r\n") {
            *p += 2
        } else if matches!(b.get(*p), Some(b'\n') | Some(b'\r')) {
            *p += 1
        } else {
            return Err(format!("expected end of line at {}", p));
        }
        Ok(())
    };
    eol(&mut p)?;
    let mut entries: Vec<(u32, u64, u64, u8)> = vec![];
    loop {
        let line_end = b[p..].iter().position(|c| *c == b'\n' || *c == b'\r').ok_or("truncated xref")? + p;
        let line = &b[p..line_end];
        if line.starts_with(b"trailer") {
            break;
        }
        let mut it = line.split(|c| *c == b' ');
        let first = it.next().and_then(digits).ok_or("bad xref subsection header")?;
        let count = it.next().and_then(digits).ok_or("bad xref subsection header")?;
        if it.next().map_or(false, |r| !r.is_empty()) {
            return Err("bad xref subsection header".into());
        }
        p = line_end;
        eol(&mut p)?;
        for i in 0..count {
            let e = b.get(p..p + 20).ok_or("truncated xref entry")?;
            let o = digits(&e[..10]).ok_or("bad xref offset")?;
            let g = digits(&e[11..16]).ok_or("bad xref generation")?;
            if e[10] != b' ' || e[16] != b' ' || !(e[17] == b'n' || e[17] == b'f') {
                return Err("bad xref entry".into());
            }
            if !matches!(&e[18..], b" \n" | b" \r" | b"\r\n") {
                return Err("bad xref entry line ending".into());
            }
            entries.push(((first + i) as u32, o, g, e[17]));
            p += 20;
        }
    }
    let mut lx = Lex { b, p };
    lx.keyword("trailer")?;
    let trailer = lx.object(true, 0)?;
    lx.keyword("startxref")?;
    match entries.first() {
        Some((0, _, 65535, b'f')) => {}
        _ => return Err("xref does not start with the free entry 0".into()),
    }
    let size = trailer.get("Size").and_then(Obj::int).ok_or("trailer has no Size")?;
    if entries.len() as i64 != size {
        return Err(format!("xref has {} entries, trailer Size is {}", entries.len(), size));
    }
    for (i, e) in entries.iter().enumerate() {
        if e.0 as usize != i {
            return Err("xref object numbers are not contiguous".into());
        }
    }
    let mut pdf = Pdf { bytes: b, objs: BTreeMap::new(), trailer };
    let mut spans: Vec<(usize, usize)> = vec![];
    for &(num, o, gen, kind) in &entries {
        if kind == b'f' {
            if num != 0 {
                return Err(format!("free xref entry {}", num));
            }
            continue;
        }
        let o = o as usize;
        if o >= off {
            return Err(format!("xref offset of {} out of range", num));
        }
        let mut lx = Lex { b, p: o };
        // the offset must be exactly at the object number
        if !b[o].is_ascii_digit() {
            return Err(format!("xref offset {} of object {} does not point to an object", o, num));
        }
        if o > 0 && !is_ws(b[o - 1]) {
            return Err(format!("xref offset {} of object {} points inside a token", o, num));
        }
        let n = digits(lx.regular()).ok_or_else(|| format!("xref offset of {} is wrong", num))?;
        lx.skip_ws();
        let g = digits(lx.regular()).ok_or_else(|| format!("xref offset of {} is wrong", num))?;
        lx.keyword("obj").map_err(|e| format!("xref offset of {}: {}", num, e))?;
        if n != num as u64 || g != gen {
            return Err(format!("xref entry {} {} points to object {} {}", num, gen, n, g));
        }
        let value = lx.object(true, 0).map_err(|e| format!("object {}: {}", num, e))?;
        lx.skip_ws();
        let save = lx.p;
        let mut stream = None;
        if lx.regular() == b"stream" {
            if b[lx.p..].starts_with(b"\r\n") {
                lx.p += 2
            } else if b[lx.p] == b'\n' {
                lx.p += 1
            } else {
                return Err("stream keyword not followed by newline".into());
            }
            let len = value.get("Length").and_then(Obj::int).ok_or("stream without direct Length")? as usize;
            let s = lx.p;
            if s + len > b.len() {
                return Err("stream Length exceeds the file".into());
            }
            lx.p = s + len;
            // an end-of-line marker then endstream
            if b[lx.p..].starts_with(b"\r\n") {
                lx.p += 2
            } else if b[lx.p] == b'\n' || b[lx.p] == b'\r' {
                lx.p += 1
            }
            if !b[lx.p..].starts_with(b"endstream") {
                return Err(format!("object {}: stream Length {} does not end at endstream", num, len));
            }
            lx.p += 9;
            stream = Some((s, s + len));
        } else {
            lx.p = save;
        }
        lx.keyword("endobj").map_err(|e| format!("object {}: {}", num, e))?;
        spans.push((o, lx.p));
        pdf.objs.insert(num, Indirect { value, stream });
    }
    // objects do not overlap and cover the body
    spans.sort();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 {
            return Err("objects overlap".into());
        }
    }
    // no dangling references
    let n = pdf.objs.len() as u32;
    fn refs(o: &Obj, out: &mut Vec<u32>) {
        match o {
            Obj::Ref(r) => out.push(*r),
            Obj::Arr(a) => a.iter().for_each(|x| refs(x, out)),
            Obj::Dict(d) => d.iter().for_each(|x| refs(&x.1, out)),
            _ => {}
        }
    }
    let mut out = vec![];
    for i in pdf.objs.values() {
        refs(&i.value, &mut out)
    }
    refs(&pdf.trailer, &mut out);
    for r in out {
        if r == 0 || r > n {
            return Err(format!("dangling reference {} 0 R", r));
        }
    }
    Ok(pdf)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Rect { x: f64, y: f64, w: f64, h: f64, rgb: [f64; 3], alpha: f64 },
    Text { font: String, glyphs: Vec<u16>, x: f64, y: f64, size: f64, rgb: [f64; 3], alpha: f64 },
}

#[derive(Debug, Clone)]
pub struct PageOut {
    /// CSS px
    pub width: f64,
    pub height: f64,
    /// signed, as declared
    pub mediabox: [f64; 4],
    pub items: Vec<Item>,
}

impl<'a> Pdf<'a> {
    pub fn deref<'b>(&'b self, o: &'b Obj) -> &'b Obj {
        match o {
            Obj::Ref(r) => &self.objs[r].value,
            o => o,
        }
    }
    pub fn get<'b>(&'b self, o: &'b Obj, k: &str) -> Option<&'b Obj> {
        self.deref(o).get(k).map(|o| self.deref(o))
    }
    pub fn stream(&self, o: &Obj) -> R<&'a [u8]> {
        match o {
            Obj::Ref(r) => {
                let i = &self.objs[r];
                if i.value.get("Filter").is_some() {
                    return Err("filtered stream".into());
                }
                let (s, e) = i.stream.ok_or("not a stream")?;
                Ok(&self.bytes[s..e])
            }
            _ => Err("stream is not an indirect object".into()),
        }
    }
    pub fn catalog(&self) -> R<&Obj> {
        let c = self.trailer.get("Root").ok_or("no Root")?;
        if !matches!(c, Obj::Ref(_)) {
            return Err("Root is not a reference".into());
        }
        let c = self.deref(c);
        if c.get("Type").and_then(Obj::name) != Some(b"Catalog") {
            return Err("Root is not a Catalog".into());
        }
        Ok(c)
    }
    /// leaf page objects in order, with the inherited Resources
    pub fn page_objs(&self) -> R<Vec<(u32, Option<&Obj>)>> {
        let root = self.catalog()?.get("Pages").ok_or("Catalog has no Pages")?;
        let mut out = vec![];
        let r = match root {
            Obj::Ref(r) => *r,
            _ => return Err("Pages is not a reference".into()),
        };
        self.walk(r, None, None, &mut out, 0)?;
        Ok(out)
    }
    fn walk<'b>(
        &'b self,
        id: u32,
        parent: Option<u32>,
        res: Option<&'b Obj>,
        out: &mut Vec<(u32, Option<&'b Obj>)>,
        depth: u32,
    ) -> R<usize> {
        if depth > 20 {
            return Err("page tree too deep".into());
        }
        let o = &self.objs[&id].value;
        let res = o.get("Resources").or(res);
        match parent {
            Some(p) => {
                if o.get("Parent") != Some(&Obj::Ref(p)) {
                    return Err("page tree node has a wrong Parent".into());
                }
            }
            None => {
                if o.get("Parent").is_some() {
                    return Err("the page tree root has a Parent".into());
                }
            }
        }
        match o.get("Type").and_then(Obj::name) {
            Some(b"Pages") => {
                let kids = self.get(o, "Kids").and_then(Obj::arr).ok_or("Pages without Kids")?;
                let mut n = 0;
                for k in kids {
                    match k {
                        Obj::Ref(r) => n += self.walk(*r, Some(id), res, out, depth + 1)?,
                        _ => return Err("kid is not a reference".into()),
                    }
                }
                let c = self.get(o, "Count").and_then(Obj::int).ok_or("Pages without Count")?;
                if c != n as i64 {
                    return Err(format!("Count {} but {} leaves", c, n));
                }
                Ok(n)
            }
            Some(b"Page") => {
                if out.iter().any(|p| p.0 == id) {
                    return Err("page appears twice".into());
                }
                out.push((id, res));
                Ok(1)
            }
            _ => Err("bad page tree node Type".into()),
        }
    }

    pub fn pages(&self) -> R<Vec<PageOut>> {
        self.page_objs()?.into_iter().map(|(id, res)| self.page(id, res)).collect()
    }

    pub fn resource<'b>(&'b self, res: Option<&'b Obj>, cat: &str, name: &[u8]) -> R<&'b Obj> {
        let r = self.deref(res.ok_or("page has no resources")?);
        let c = self.get(r, cat).ok_or_else(|| format!("no {} resources", cat))?;
        match c {
            Obj::Dict(d) => d
                .iter()
                .find(|e| e.0 == name)
                .map(|e| &e.1)
                .ok_or_else(|| format!("undefined {} resource {:?}", cat, String::from_utf8_lossy(name))),
            _ => Err("resource category is not a dictionary".into()),
        }
    }

    pub fn page(&self, id: u32, res: Option<&Obj>) -> R<PageOut> {
        let o = &self.objs[&id].value;
        let mb = self.get(o, "MediaBox").and_then(Obj::arr).ok_or("no MediaBox")?;
        if mb.len() != 4 {
            return Err("MediaBox is not a rectangle".into());
        }
        let mut m = [0.; 4];
        for i in 0..4 {
            m[i] = mb[i].num().ok_or("MediaBox is not numeric")?;
        }
        let left = m[0].min(m[2]);
        let top = m[1].max(m[3]);
        let to_px = |v: f64| v * 96. / 72.;
        let mut out = PageOut {
            width: to_px((m[2] - m[0]).abs()),
            height: to_px((m[3] - m[1]).abs()),
            mediabox: m,
            items: vec![],
        };
        let content = match o.get("Contents") {
            Some(c @ Obj::Ref(_)) => self.stream(c)?.to_vec(),
            Some(Obj::Arr(a)) => {
                let mut v = vec![];
                for c in a {
                    v.extend_from_slice(self.stream(c)?);
                    v.push(b'\n');
                }
                v
            }
            None => vec![],
            _ => return Err("bad Contents".into()),
        };
        #[derive(Clone)]
        struct Gs {
            ctm: [f64; 6],
            rgb: [f64; 3],
            alpha: f64,
            font: Option<(String, f64)>,
        }
        let mut gs = Gs { ctm: [1., 0., 0., 1., 0., 0.], rgb: [0.; 3], alpha: 1., font: None };
        let mut stack: Vec<Gs> = vec![];
        let mut path: Vec<[f64; 4]> = vec![];
        let mut in_text = false;
        let mut tm = [1., 0., 0., 1., 0., 0.];
        let mut moved = false;
        let mut ops: Vec<Obj> = vec![];
        let mul = |a: [f64; 6], b: [f64; 6]| -> [f64; 6] {
            [
                a[0] * b[0] + a[1] * b[2],
                a[0] * b[1] + a[1] * b[3],
                a[2] * b[0] + a[3] * b[2],
                a[2] * b[1] + a[3] * b[3],
                a[4] * b[0] + a[5] * b[2] + b[4],
                a[4] * b[1] + a[5] * b[3] + b[5],
            ]
        };
        let mut lx = Lex { b: &content, p: 0 };
        while !lx.at_end() {
            let c = content[lx.p];
            let starts_operand = c == b'/' || c == b'(' || c == b'<' || c == b'[' || c == b'+' || c == b'-' || c == b'.' || c.is_ascii_digit();
            if starts_operand {
                ops.push(lx.object(false, 0).map_err(|e| format!("content stream: {}", e))?);
                continue;
            }
            let op = lx.regular();
            if op.is_empty() {
                return Err(format!("content stream: junk {:?}", c as char));
            }
            let op = std::str::from_utf8(op).map_err(|_| "operator not ASCII")?;
            let nums = |n: usize| -> R<Vec<f64>> {
                if ops.len() != n {
                    return Err(format!("operator {} has {} operands", op, ops.len()));
                }
                ops.iter()
                    .map(|o| o.num().ok_or_else(|| format!("operator {} has a non-numeric operand", op)))
                    .collect()
            };
            let name1 = |n: usize| -> R<Vec<u8>> {
                if ops.len() != n {
                    return Err(format!("operator {} has {} operands", op, ops.len()));
                }
                ops[0].name().map(|n| n.to_vec()).ok_or_else(|| format!("operator {} operand is not a name", op))
            };
            if !path.is_empty() && !matches!(op, "re" | "f" | "F" | "f*" | "n") {
                return Err(format!("operator {} inside a path", op));
            }
            match op {
                "q" => {
                    nums(0)?;
                    if in_text {
                        return Err("q inside a text object".into());
                    }
                    stack.push(gs.clone())
                }
                "Q" => {
                    nums(0)?;
                    gs = stack.pop().ok_or("unbalanced Q")?
                }
                "cm" => {
                    let v = nums(6)?;
                    if in_text {
                        return Err("cm inside a text object".into());
                    }
                    gs.ctm = mul([v[0], v[1], v[2], v[3], v[4], v[5]], gs.ctm)
                }
                "gs" => {
                    let n = name1(1)?;
                    let d = self.deref(self.resource(res, "ExtGState", &n)?);
                    match d.get("ca").map(|o| self.deref(o)).and_then(Obj::num) {
                        Some(a) if a >= 0. && a <= 1. => gs.alpha = a,
                        Some(a) => return Err(format!("ca {} out of range", a)),
                        None => {}
                    }
                }
                "rg" => {
                    let v = nums(3)?;
                    gs.rgb = [v[0], v[1], v[2]]
                }
                "g" => {
                    let v = nums(1)?;
                    gs.rgb = [v[0], v[0], v[0]]
                }
                "re" => {
                    let v = nums(4)?;
                    if in_text {
                        return Err("re inside a text object".into());
                    }
                    path.push([v[0], v[1], v[2], v[3]])
                }
                "n" => {
                    nums(0)?;
                    path.clear()
                }
                "f" | "F" | "f*" => {
                    nums(0)?;
                    if in_text {
                        return Err("f inside a text object".into());
                    }
                    for r in path.drain(..) {
                        let t = |x: f64, y: f64| {
                            (
                                gs.ctm[0] * x + gs.ctm[2] * y + gs.ctm[4],
                                gs.ctm[1] * x + gs.ctm[3] * y + gs.ctm[5],
                            )
                        };
                        if gs.ctm[1] != 0. || gs.ctm[2] != 0. {
                            return Err("rotated CTM".into());
                        }
                        let (x0, y0) = t(r[0], r[1]);
                        let (x1, y1) = t(r[0] + r[2], r[1] + r[3]);
                        let (px0, px1) = (to_px(x0 - left), to_px(x1 - left));
                        let (py0, py1) = (to_px(top - y0), to_px(top - y1));
                        out.items.push(Item::Rect {
                            x: px0,
                            y: py0,
                            w: px1 - px0,
                            h: py1 - py0,
                            rgb: gs.rgb,
                            alpha: gs.alpha,
                        });
                    }
                }
                "BT" => {
                    nums(0)?;
                    if in_text {
                        return Err("nested BT".into());
                    }
                    in_text = true;
                    tm = [1., 0., 0., 1., 0., 0.];
                    moved = false;
                }
                "ET" => {
                    nums(0)?;
                    if !in_text {
                        return Err("ET without BT".into());
                    }
                    in_text = false
                }
                "Tf" => {
                    if ops.len() != 2 {
                        return Err("Tf operands".into());
                    }
                    let n = ops[0].name().ok_or("Tf operand")?.to_vec();
                    let s = ops[1].num().ok_or("Tf operand")?;
                    self.resource(res, "Font", &n)?;
                    gs.font = Some((String::from_utf8_lossy(&n).into_owned(), s))
                }
                "Tm" => {
                    let v = nums(6)?;
                    if !in_text {
                        return Err("Tm outside of a text object".into());
                    }
                    tm = [v[0], v[1], v[2], v[3], v[4], v[5]];
                    moved = false;
                }
                "Td" => {
                    let v = nums(2)?;
                    if !in_text || moved {
                        return Err("Td not interpretable".into());
                    }
                    tm = mul([1., 0., 0., 1., v[0], v[1]], tm);
                }
                "Tj" => {
                    if !in_text {
                        return Err("Tj outside of a text object".into());
                    }
                    if moved {
                        return Err("second Tj without positioning".into());
                    }
                    moved = true;
                    let s = match &ops[..] {
                        [Obj::Str(s)] => s,
                        _ => return Err("Tj operand".into()),
                    };
                    if s.len() % 2 != 0 {
                        return Err("odd number of bytes in a 2-byte string".into());
                    }
                    let (font, fs) = gs.font.clone().ok_or("Tj without font")?;
                    // text rendering matrix
                    let m = mul(mul([fs, 0., 0., fs, 0., 0.], tm), gs.ctm);
                    if m[1] != 0. || m[2] != 0. {
                        return Err("rotated text".into());
                    }
                    // glyphs must be upright: in page space x to the right, y up, same scale
                    let scale = |a: f64, b: f64| (a - b).abs() <= 1e-5 * (a.abs() + b.abs()) + 1e-9;
                    if !scale(m[0], m[3]) {
                        return Err(format!("text is not upright and uniformly scaled: {:?}", m));
                    }
                    out.items.push(Item::Text {
                        font,
                        glyphs: s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect(),
                        x: to_px(m[4] - left),
                        y: to_px(top - m[5]),
                        size: to_px(m[0]),
                        rgb: gs.rgb,
                        alpha: gs.alpha,
                    });
                }
                _ => return Err(format!("unknown operator {:?}", op)),
            }
            ops.clear();
        }
        if !ops.is_empty() {
            return Err("operands without operator at the end".into());
        }
        if in_text {
            return Err("unterminated text object".into());
        }
        if !path.is_empty() {
            return Err("unfinished path".into());
        }
        if !stack.is_empty() {
            return Err("unbalanced q".into());
        }
        Ok(out)
    }

    /// font resource name -> font dictionary, over the whole document
    pub fn fonts(&self) -> R<HashMap<String, &Obj>> {
        let mut m = HashMap::new();
        for (_, res) in self.page_objs()? {
            if let Some(res) = res {
                if let Some(Obj::Dict(d)) = self.get(res, "Font") {
                    for (k, v) in d {
                        m.insert(String::from_utf8_lossy(k).into_owned(), self.deref(v));
                    }
                }
            }
        }
        Ok(m)
    }
}
