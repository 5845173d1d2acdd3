//! C27: writing PDF files to streams, files, and through the command line program.
use super::lester::*;
use super::page::*;
use super::pdf::{build, gen_case};
use crate::engine::*;
use std::cell::RefCell;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use victor::dom;
use victor::pdf::Document;

fn gen_doc(g: &mut G) -> Document {
    let text = if g.chance(20) { 2 } else { 0 };
    build(&gen_case(g, 2, 5, text))
}

fn c27_streams(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let doc = gen_doc(g);
    let bytes = doc.write_to_pdf_bytes();
    let st = Rc::new(RefCell::new(gen_stream(g, vec![], bytes.len(), 70)));
    {
        let s = st.borrow();
        cx.desc(format!("{} bytes, pieces {:?}, {:?} after {}", bytes.len(), s.sizes, s.fault, s.fault_at));
    }
    let mut handle = Handle(st.clone());
    let r = catch_unwind(AssertUnwindSafe(|| doc.write_to_pdf(&mut handle)));
    {
        let s = st.borrow();
        let what = format!("{:?} after {} of {} bytes", s.fault, s.fault_at, bytes.len());
        ensure!(s.calls_after_fault == 0, "used-after-fault", "{}: {} more calls", what, s.calls_after_fault);
        match (r, s.fault) {
            (Ok(Ok(())), Fault::None) => {}
            (Ok(Ok(())), _) => return fail("fault-ignored", what),
            (Ok(Err(e)), Fault::Error(k)) => {
                let note = e.get_ref().and_then(|e| e.downcast_ref::<Note>()).map(|n| n.0);
                ensure!(e.kind() == k && note == Some(s.id), "other-error", "{}: got {:?}", what, e);
            }
            (Ok(Err(e)), Fault::Os(code)) => ensure!(e.raw_os_error() == Some(code), "other-error", "{}: got {:?}", what, e),
            (Ok(Err(e)), f) => ensure!(f == Fault::Zero && e.kind() == io::ErrorKind::WriteZero, "other-error", "{}: got {:?}", what, e),
            (Err(p), f) => {
                let id = p.downcast_ref::<PanicPayload>().map(|p| p.0);
                ensure!(f == Fault::Panic && id == Some(s.id), "other-panic", "{}", what)
            }
        }
        let n = if s.fault == Fault::None { bytes.len() } else { s.fault_at };
        ensure!(s.data[..] == bytes[..n], "other-bytes", "{} bytes were written, {} of them expected", s.data.len(), n);
        cx.nontrivial = s.fault != Fault::None || s.sizes.iter().any(|n| *n < 30);
        cx.label(if s.fault == Fault::None { "written" } else { "fault reported" })
    }
    ensure!(doc.write_to_pdf_bytes() == bytes, "changed-by-writing", "writing again gives other bytes");
    Ok(())
}

fn c27_files(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let doc = gen_doc(g);
    let bytes = doc.write_to_pdf_bytes();
    cx.desc(format!("{} bytes", bytes.len()));
    let f = scratch("a.pdf");
    let old = g.us(0, 2 * bytes.len());
    if g.chance(50) {
        // an existing file is replaced as a whole
        std::fs::write(&f, vec![b'x'; old]).unwrap()
    }
    let r = doc.write_to_pdf_file(&f);
    let got = std::fs::read(&f);
    clean_scratch();
    if let Err(e) = r {
        return fail("write-failed", e.to_string());
    }
    let got = got.unwrap_or_default();
    ensure!(got == bytes, "file-differs", "{} bytes in the file, {} expected", got.len(), bytes.len());
    ensure!(doc.write_to_pdf_file("/dev/full").is_err(), "error-ignored", "writing to a full device");
    ensure!(doc.write_to_pdf_file("/nonexistent-directory/a.pdf").is_err(), "error-ignored", "writing to a missing directory");
    cx.nontrivial = true;
    Ok(())
}

fn c27_command(g: &mut G, cx: &mut Cx) -> Result<(), Fail> {
    let k = Knobs { max_elements: 12, ..BASE };
    let doc = PageGen::doc(g, &k);
    let html = html_text(&doc);
    cx.desc(html.clone());
    let (input, output) = (scratch("in put.html"), scratch("out.pdf"));
    let run = |args: &[&std::ffi::OsStr]| std::process::Command::new(std::env::current_exe().unwrap().with_file_name("victor-program")).args(args).stdin(std::process::Stdio::null()).output().unwrap();
    let kind = g.upto(5);
    let result = (|| -> Result<(), Fail> {
        match kind {
            0 => {
                std::fs::write(&output, b"as it was").unwrap();
                let o = run(&[input.as_os_str(), output.as_os_str()]);
                ensure!(!o.status.success() && !o.stderr.is_empty(), "error-ignored", "missing input file");
                ensure!(std::fs::read(&output).unwrap() == b"as it was", "output-changed", "missing input file");
            }
            1 => {
                std::fs::write(&input, &html).unwrap();
                for args in &[&[][..], &[input.as_os_str()][..]] {
                    let o = run(args);
                    ensure!(!o.status.success() && !o.stderr.is_empty(), "error-ignored", "missing argument");
                }
                let o = run(&[input.as_os_str(), "/dev/full".as_ref()]);
                ensure!(!o.status.success() && !o.stderr.is_empty(), "error-ignored", "full output device");
                ensure!(std::fs::read(&input).unwrap() == html.as_bytes(), "input-changed", "the input file changed");
            }
            _ => {
                std::fs::write(&input, &html).unwrap();
                if kind == 2 {
                    std::fs::write(&output, vec![b'x'; 100_000]).unwrap()
                }
                let o = run(&[input.as_os_str(), output.as_os_str()]);
                ensure!(o.status.success(), "command-failed", "{:?}", o);
                let got = std::fs::read(&output).unwrap_or_default();
                let e = dom::Document::parse_html(html.as_bytes()).to_pdf_bytes();
                ensure!(got == e, "command-differs", "{} bytes in the file, {} expected", got.len(), e.len());
                ensure!(std::fs::read(&input).unwrap() == html.as_bytes(), "input-changed", "the input file changed");
            }
        }
        Ok(())
    })();
    clean_scratch();
    result?;
    cx.nontrivial = true;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a case is a document and a stream that accepts it in generated pieces, mostly with a fault (`streams`), a file (`files`) or a call of the program (`command`); in `streams`, non-trivial if there is a fault or a small piece",
        assumptions: &["/dev/full stands for devices that fill up"],
        parts: vec![part("streams", 240_000, 2_000_000, c27_streams), part("files", 24_000, 100_000, c27_files), part("command", 4_000, 30_000, c27_command)],
    }
}
