//! C22: the bytes written depend on the input alone.
use super::page::*;
use crate::engine::*;
use crate::models::css::{Lh, Sv};
use std::sync::{Arc, Barrier};
use victor::dom::Document;

lazy_static::lazy_static! {
    static ref POOLS: Vec<rayon::ThreadPool> = [1, 2, 3, 8]
        .iter()
        .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(8 << 20).build().unwrap())
        .collect();
}

fn knobs(g: &mut G) -> Knobs {
    // Wide trees: what is done in parallel is the children of a box
    Knobs {
        max_elements: *g.pick(&[20, 40, 60, 100, 200]),
        max_depth: 5,
        avg_children: 9,
        kinds: [20, 45, 12, 4, 2, 1, 14, 1],
        relative: 15,
        height: 10,
        alpha: g.chance(60),
        ..BASE
    }
}

/// Something to render, of any of the kinds of documents that the other properties use
pub struct Source {
    pub bytes: Vec<u8>,
    pub xml: bool,
}

pub fn source(g: &mut G) -> Source {
    let page = |g: &mut G| {
        let k = Knobs { max_elements: *g.pick(&[10, 25, 60]), alpha: g.chance(60), inline_axis: 20, background: 60, ..BASE };
        PageGen::doc(g, &k)
    };
    match g.weighted(&[3, 3, 3, 3]) {
        0 => Source { bytes: html_text(&page(g)).into_bytes(), xml: false },
        1 => {
            let mut t = String::new();
            crate::models::dom::xml(&page(g).root, &mut t, true);
            Source { bytes: t.into_bytes(), xml: true }
        }
        2 => Source { bytes: super::robust::style_source(g).0.into_bytes(), xml: false },
        _ => Source { bytes: super::robust::bytes_source(g).0, xml: false },
    }
}

pub fn parse(s: &Source) -> Option<Document> {
    if s.xml {
        Document::parse_xml(&s.bytes).ok()
    } else {
        Some(Document::parse_html(&s.bytes))
    }
}

fn render(s: &Source) -> Vec<u8> {
    parse(s).map(|d| d.to_pdf_bytes()).unwrap_or_else(|| b"refused".to_vec())
}

fn sources(g: &mut G, cx: &mut Cx, max: usize) -> Vec<Source> {
    let n = g.us(1, max);
    let v: Vec<Source> = (0..n).map(|_| source(g)).collect();
    let texts: Vec<_> = v.iter().map(|s| String::from_utf8_lossy(&s.bytes)).collect();
    cx.desc(texts.join("\n=====\n"));
    v
}

/// Again; by another thread; after other documents; in another order; while others are rendered
fn c22_inputs(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let v = sources(g, cx, 4);
    let reference: Vec<Vec<u8>> = v.iter().map(render).collect();
    let check = |i: usize, b: &[u8], how: &str| {
        ensure!(*b == *reference[i], "nondeterministic", "{}: {}", how, first_difference(&reference[i], b));
        Ok(())
    };
    for (i, s) in v.iter().enumerate().rev() {
        check(i, &render(s), "again, after other documents")?;
        if let Some(d) = parse(s) {
            check(i, &d.to_pdf_bytes(), "parsed separately")?;
            check(i, &d.to_pdf_bytes(), "the same Document again")?;
            let b = POOLS[i % POOLS.len()].install(|| d.to_pdf_bytes());
            check(i, &b, "in another pool")?
        }
    }
    let results: Vec<_> = std::thread::scope(|sc| {
        let threads: Vec<_> = v
            .iter()
            .map(|s| {
                let s: &Source = s;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || [render(s), render(s)]).unwrap()
            })
            .collect();
        threads.into_iter().map(|t| t.join()).collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Ok(bs) => {
                for b in &bs {
                    check(i, b, "by another thread")?
                }
            }
            Err(_) => return fail("panic", last_panic()),
        }
    }
    cx.count("documents", v.len() as u64);
    cx.nontrivial = reference.iter().any(|r| r.len() > 1500);
    Ok(())
}

/// Documents made with the `pdf` module
fn c22_api(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    use super::pdf::*;
    let avg = *g.pick(&[2usize, 1, 8]);
    let c = gen_case(g, avg, 30, 3);
    cx.desc(desc(&c));
    let doc = build(&c);
    let reference = doc.write_to_pdf_bytes();
    let check = |b: &[u8], how: &str| {
        ensure!(*b == *reference, "nondeterministic", "{}: {}", how, first_difference(&reference, b));
        Ok(())
    };
    check(&doc.write_to_pdf_bytes(), "written again")?;
    check(&build(&c).write_to_pdf_bytes(), "made again")?;
    let mut v = vec![];
    if doc.write_to_pdf(&mut v).is_ok() {
        check(&v, "written to a stream")?
    }
    // The same font files at other addresses
    let order: Vec<usize> = if g.chance(50) { (0..c.fonts.len()).collect() } else { (0..c.fonts.len()).rev().collect() };
    let mut fonts: Vec<Option<FontUse>> = c.fonts.iter().map(|_| None).collect();
    for i in order {
        let f = &c.fonts[i];
        let font = match &f.spec {
            Some(_) => victor::fonts::Font::parse(f.font.bytes().to_vec()).unwrap(),
            None => f.font.clone(),
        };
        fonts[i] = Some(FontUse { font, spec: f.spec.clone() })
    }
    let other = Case { fonts: fonts.into_iter().map(|f| f.unwrap()).collect(), pages: c.pages.clone(), late: c.late };
    check(&build(&other).write_to_pdf_bytes(), "with the same fonts loaded again")?;
    let c = &c;
    let results: Vec<_> = std::thread::scope(|sc| {
        let threads: Vec<_> = (0..2).map(|_| sc.spawn(move || build(c).write_to_pdf_bytes())).collect();
        threads.into_iter().map(|t| t.join()).collect()
    });
    for r in results {
        match r {
            Ok(b) => check(&b, "by another thread")?,
            Err(_) => return fail("panic", last_panic()),
        }
    }
    cx.count("fonts", c.fonts.len() as u64);
    cx.nontrivial = c.pages.iter().map(|p| p.2.len()).sum::<usize>() >= 3;
    Ok(())
}

/// Documents made with `text_plain`
fn c22_plain(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    use victor::primitives::{Length, Size};
    let text = super::textplain::gen_plain(g, false);
    let font = if g.chance(50) {
        victor::fonts::BITSTREAM_VERA_SANS.clone()
    } else {
        match victor::fonts::Font::parse(crate::models::font::gen_simple(g).build()) {
            Ok(f) => f,
            Err(_) => return fail("valid-font-rejected", "a font made by the generator"),
        }
    };
    let style = victor::text_plain::Style {
        page_size: Size::new(g.int(5, 120) as f32, g.int(5, 100) as f32),
        page_margin: Length::new(*g.pick(&[0.0f32, 1., 2.])),
        font,
        font_size: Length::new(*g.pick(&[16.0f32, 10., 7.3])),
        line_height: *g.pick(&[1.5f32, 1., 1.2]),
        justify: g.chance(50),
    };
    cx.desc(format!("{:?} page {:?} justify {}", text, style.page_size, style.justify));
    let go = || victor::text_plain::layout(&text, &style).map(|d| d.write_to_pdf_bytes()).unwrap_or_else(|_| b"refused".to_vec());
    let reference = go();
    for _ in 0..2 {
        let b = go();
        ensure!(b == reference, "nondeterministic", "again: {}", first_difference(&reference, &b))
    }
    let results: Vec<_> = std::thread::scope(|sc| {
        let threads: Vec<_> = (0..2).map(|_| sc.spawn(go)).collect();
        threads.into_iter().map(|t| t.join()).collect()
    });
    for r in results {
        match r {
            Ok(b) => ensure!(b == reference, "nondeterministic", "by another thread: {}", first_difference(&reference, &b)),
            Err(_) => return fail("panic", last_panic()),
        }
    }
    cx.nontrivial = text.len() > 40;
    Ok(())
}

// ---------------------------------------------------------------- other processes

fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

fn listing(v: &[Source]) -> String {
    v.iter().map(|s| render(s)).map(|b| format!("{} {:016x}\n", b.len(), hash(&b))).collect()
}

/// The command `vh bytes DIRECTORY`: what is written for each of the files
pub fn bytes_command(dir: &str) -> i32 {
    let mut v = vec![];
    for i in 0.. {
        let f = |e| std::fs::read(format!("{}/{}.{}", dir, i, e));
        match (f("html"), f("xml")) {
            (Ok(bytes), _) => v.push(Source { bytes, xml: false }),
            (_, Ok(bytes)) => v.push(Source { bytes, xml: true }),
            _ => break,
        }
    }
    print!("{}", listing(&v));
    0
}

lazy_static::lazy_static! {
    /// A library that sets the clock, if there is a C compiler
    static ref SHIM: Option<std::path::PathBuf> = {
        let so = super::lester::scratch("shim.so");
        let c = concat!(env!("CARGO_MANIFEST_DIR"), "/shim/shim.c");
        let ok = std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(c).arg("-ldl").status();
        match ok {
            Ok(s) if s.success() => Some(so),
            _ => None,
        }
    };
}

/// Other processes: other addresses, random numbers, dates, environment variables, working directories
fn c22_processes(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let v = sources(g, cx, 12);
    let reference = listing(&v);
    let dir = super::lester::scratch("documents");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    for (i, s) in v.iter().enumerate() {
        std::fs::write(dir.join(format!("{}.{}", i, if s.xml { "xml" } else { "html" })), &s.bytes).unwrap()
    }
    for i in 0..3u64 {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg("bytes").arg(&dir).stderr(std::process::Stdio::piped());
        c.env("RAYON_NUM_THREADS", (i + 1).to_string());
        if i > 0 {
            c.env("LANG", ["C", "fr_FR.UTF-8"][i as usize - 1]).env("LC_ALL", ["tr_TR.UTF-8", "C"][i as usize - 1]);
            c.env("TZ", ["Asia/Tokyo", "America/New_York"][i as usize - 1]);
            c.env("SOURCE_DATE_EPOCH", (i * 1_000_000_007).to_string());
            c.env("HOME", &dir).env("USER", format!("u{}", i)).env("HOSTNAME", format!("h{}", i));
            c.current_dir(if i == 1 { std::path::Path::new("/") } else { &dir });
            if let Some(so) = &*SHIM {
                c.env("LD_PRELOAD", so).env("VH_SHIM", i.to_string());
            }
        }
        if i == 2 {
            c.env_remove("PATH").env_remove("PWD").env_remove("TERM").env_remove("TMPDIR");
        }
        let o = c.output().unwrap();
        let out = String::from_utf8_lossy(&o.stdout);
        ensure!(
            out == reference,
            "depends-on-process",
            "in another process ({}): {}\n--- instead of:\n{}\n{}",
            i,
            out,
            reference,
            String::from_utf8_lossy(&o.stderr)
        );
        cx.count("processes", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    cx.label(if SHIM.is_some() { "with another date" } else { "no C compiler: same date" });
    cx.count("documents", v.len() as u64);
    cx.nontrivial = v.len() >= 3;
    Ok(())
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |s: &[u8]| String::from_utf8_lossy(&s[i.saturating_sub(60).min(s.len())..(i + 60).min(s.len())]).into_owned();
    format!("{} and {} bytes, first difference at {}:\n{}\n---\n{}", a.len(), b.len(), i, cut(a), cut(b))
}

/// The same document in pools of different sizes, several times, and at the same time as others
fn c22(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let n_docs = g.us(1, 4);
    let mut htmls = vec![];
    let mut elements = 0;
    let mut abs = 0;
    for _ in 0..n_docs {
        let k = knobs(g);
        let doc = PageGen::doc(g, &k);
        elements += doc.root.count();
        abs += doc.attrs.values().flatten().filter(|d| d.sets.iter().any(|s| s.0 == Lh::Position && matches!(s.1, Sv::Pos(crate::models::css::Pos::Absolute)))).count();
        htmls.push(html_text(&doc))
    }
    cx.desc(htmls.join("\n=====\n"));
    // One at a time, with one thread
    let reference: Vec<Vec<u8>> = htmls.iter().map(|h| POOLS[0].install(|| Document::parse_html(h.as_bytes()).to_pdf_bytes())).collect();
    // Again, the same Document object several times, in every pool
    for (h, r) in htmls.iter().zip(&reference) {
        let doc = Document::parse_html(h.as_bytes());
        for _ in 0..2 {
            for p in POOLS.iter() {
                let b = p.install(|| doc.to_pdf_bytes());
                ensure!(b == *r, "nondeterministic", "with {} threads: {}", p.current_num_threads(), first_difference(r, &b));
            }
        }
        ensure!(doc.to_pdf_bytes() == *r, "nondeterministic", "in the global pool");
    }
    // All of them at the same time
    let barrier = Arc::new(Barrier::new(2 * n_docs));
    let pool = &POOLS[g.us(1, 3)];
    let threads: Vec<_> = (0..2 * n_docs)
        .map(|i| {
            let (h, barrier) = (htmls[i % n_docs].clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let doc = Document::parse_html(h.as_bytes());
                    barrier.wait();
                    let go = || doc.to_pdf_bytes();
                    if i % 3 == 0 {
                        go()
                    } else {
                        pool.install(go)
                    }
                })
                .unwrap()
        })
        .collect();
    let results: Vec<_> = threads.into_iter().map(|t| t.join()).collect();
    for (i, b) in results.into_iter().enumerate() {
        match b {
            Ok(b) => {
                let r = &reference[i % n_docs];
                ensure!(b == *r, "nondeterministic", "at the same time as others: {}", first_difference(r, &b));
            }
            Err(_) => return fail("panic", last_panic()),
        }
    }
    cx.count("documents", n_docs as u64);
    cx.count("elements", elements as u64);
    cx.count("absolutely positioned", abs as u64);
    cx.nontrivial = elements >= 20;
    Ok(())
}

/// One document rendered by several threads at the same time
fn c22_same(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = knobs(g);
    let doc = PageGen::doc(g, &k);
    let elements = doc.root.count();
    let html = html_text(&doc);
    cx.desc(html.clone());
    let reference = Document::parse_html(html.as_bytes()).to_pdf_bytes();
    let doc = Arc::new(Document::parse_html(html.as_bytes()));
    let n = g.us(2, 4);
    let barrier = Arc::new(Barrier::new(n));
    let pool = &POOLS[g.us(0, 3)];
    let kind = g.upto(2);
    if kind == 2 {
        // The calls are themselves jobs of the thread pool
        let mut out: Vec<Vec<u8>> = vec![vec![]; n];
        pool.scope(|s| {
            for o in &mut out {
                let doc = &doc;
                s.spawn(move |_| *o = doc.to_pdf_bytes())
            }
        });
        for b in &out {
            ensure!(*b == reference, "nondeterministic", "as jobs of the same pool: {}", first_difference(&reference, b));
        }
    } else {
        let threads: Vec<_> = (0..n)
            .map(|i| {
                let (doc, barrier) = (doc.clone(), barrier.clone());
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        barrier.wait();
                        let go = || doc.to_pdf_bytes();
                        if i % 2 == kind as usize {
                            [go(), go()]
                        } else {
                            [pool.install(go), pool.install(go)]
                        }
                    })
                    .unwrap()
            })
            .collect();
        let results: Vec<_> = threads.into_iter().map(|t| t.join()).collect();
        for b in results {
            match b {
                Ok(b) => {
                    for b in &b {
                        ensure!(*b == reference, "nondeterministic", "by several threads at the same time: {}", first_difference(&reference, b));
                    }
                }
                Err(_) => return fail("panic", last_panic()),
            }
        }
    }
    ensure!(doc.to_pdf_bytes() == reference, "nondeterministic", "afterwards");
    cx.count("elements", elements as u64);
    cx.nontrivial = elements >= 20;
    Ok(())
}

pub fn prop() -> Prop {
    let mut p = part("schedules", 500, 40_000, c22);
    p.threads = 8;
    p.budget = 20 * DEFAULT_BUDGET;
    let mut same = part("same-document", 1_500, 80_000, c22_same);
    same.threads = 8;
    same.budget = 20 * DEFAULT_BUDGET;
    Prop {
        id: "C22",
        rule: "a case is one to four documents rendered with 1, 2, 3 and 8 threads, repeatedly and concurrently, or one document rendered by several threads at the same time (non-trivial if they have at least 20 elements); any other HTML or XML again, after other documents and by other threads (`inputs`: if one of the files has more than 1500 bytes) and in other processes with another date, environment, and random numbers (`processes`: at least three documents); a document of the `pdf` module (`api`: at least three operations) or of `text_plain` (`plain`: more than 40 bytes of text) made again, by other threads, with fonts loaded again",
        assumptions: &["interleavings are those that the operating system happens to schedule"],
        parts: vec![
            p,
            same,
            part("inputs", 4_000, 300_000, c22_inputs),
            part("api", 8_000, 400_000, c22_api),
            part("plain", 6_000, 300_000, c22_plain),
            part("processes", 240, 8_000, c22_processes),
        ],
    }
}
