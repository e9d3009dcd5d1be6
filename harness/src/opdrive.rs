//! Random histories of imports, exports, cancels and waits through the public handle; judged by OpTrace.tla.
use crate::rng::Rng;
use serde_json::{Value, json};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use text_document::*;

enum H {
    M(Option<Operation<MarkdownImportResult>>),
    W(Option<Operation<HtmlImportResult>>),
    D(Option<Operation<DocxExportResult>>),
}
macro_rules! each {
    ($h:expr, $o:ident => $e:expr) => {
        match $h {
            H::M($o) => $e,
            H::W($o) => $e,
            H::D($o) => $e,
        }
    };
}
fn said<T>(r: Option<anyhow::Result<T>>, n: impl Fn(&T) -> usize) -> Value {
    match r {
        None => json!({"k": "none", "v": 0}),
        Some(Ok(t)) => json!({"k": "ok", "v": n(&t)}),
        Some(Err(e)) => {
            let e = e.to_string();
            json!({"k": if e.contains("cancel") { "cancelled" } else { "failed" }, "v": 0, "m": e})
        }
    }
}

struct W {
    doc: TextDocument,
    cur: TextCursor,
    heard: Arc<Mutex<Vec<DocumentEvent>>>,
    _sub: Subscription,
    ids: Vec<String>,
    hs: Vec<H>,
    texts: Vec<String>,
    over: Vec<bool>,
    pos: std::cell::Cell<usize>,
}
impl W {
    fn ev(&self, e: &[DocumentEvent]) -> Value {
        let j = |id: &String| self.ids.iter().position(|x| x == id).map_or(-1, |p| p as i64 + 1);
        Value::Array(
            e.iter()
                .filter_map(|e| match e {
                    DocumentEvent::LongOperationProgress { operation_id, percent, .. } => {
                        Some(json!(["P", j(operation_id), percent.round() as i64]))
                    }
                    DocumentEvent::LongOperationFinished { operation_id, success, error } => Some(json!([
                        "F",
                        j(operation_id),
                        if *success { 0 } else if error.as_deref().is_some_and(|e| e.contains("cancel")) { 1 } else { 2 }
                    ])),
                    DocumentEvent::DocumentReset => Some(json!(["R", 0, 0])),
                    _ => None,
                })
                .collect(),
        )
    }
    fn state(&self) -> Value {
        let heard = {
            let h = self.heard.lock().unwrap();
            h[self.pos.replace(h.len())..].to_vec()
        };
        let quiet = self.over.iter().all(|x| *x);
        let t = if quiet { self.doc.to_plain_text().unwrap() } else { String::new() };
        let end = self.doc.character_count() + self.doc.block_count().max(1) - 1;
        json!({
            "quiet": quiet,
            "t": self.texts.iter().enumerate().filter(|(_, x)| quiet && **x == t).map(|(i, _)| i).collect::<Vec<_>>(),
            "u": quiet && self.doc.can_undo(),
            "in": !quiet || (self.cur.position() <= end && self.cur.anchor() <= end),
            "ev": self.ev(&self.doc.poll_events()),
            "cb": self.ev(&heard),
        })
    }
}

fn spin(us: u64) {
    let e = Instant::now() + Duration::from_micros(us);
    while Instant::now() < e {
        std::hint::spin_loop();
    }
}

pub fn drive(seed: u64, traces: usize, steps: usize, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    std::fs::write(format!("{out}.fmt"), "[]\n").unwrap();
    let dir = format!("{out}.d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut r = Rng::new(seed);
    for tr in 0..traces {
        let doc = TextDocument::new();
        doc.set_plain_text("one\ntwo").unwrap();
        let cur = doc.cursor_at(7);
        let heard: Arc<Mutex<Vec<DocumentEvent>>> = Arc::default();
        let h2 = heard.clone();
        let sub = doc.on_change(move |e| h2.lock().unwrap().push(e));
        doc.poll_events();
        let mut w = W { doc, cur, heard, _sub: sub, ids: vec![], hs: vec![], texts: vec!["one\ntwo".into()], over: vec![], pos: Default::default() };
        let mut emit = |w: &W, op: Value, res: Value| {
            writeln!(f, "{}", json!({"tr": tr, "op": op, "res": res, "st": w.state()})).unwrap();
        };
        emit(&w, json!({"n": "start"}), json!({"k": "ok", "v": 0}));
        for _ in 0..steps {
            let quiet = w.over.iter().all(|x| *x);
            let open: Vec<usize> = (0..w.hs.len()).filter(|j| each!(&w.hs[*j], o => o.is_some())).collect();
            let imports_open = w.hs.iter().zip(&w.over).any(|(h, o)| !o && !matches!(h, H::D(_)));
            let pick = |r: &mut Rng| if r.below(4) == 0 { open[r.below(open.len())] } else { open[open.len() - 1] };
            match r.below(12) {
                0..=2 if quiet && open.len() < 5 => {
                    let md = r.below(2) == 0;
                    let n = [0, 1, 3, 40, 250][r.below(5)];
                    let k = w.texts.len();
                    let ps: Vec<String> = (0..n).map(|i| format!("text {k} line {i}")).collect();
                    if md {
                        let s = ps.join("\n\n");
                        w.hs.push(H::M(Some(w.doc.set_markdown(&s).unwrap())));
                    } else {
                        let s: String = ps.iter().map(|p| format!("<p>{p}</p>")).collect();
                        w.hs.push(H::W(Some(w.doc.set_html(&s).unwrap())));
                    }
                    w.texts.push(ps.join("\n"));
                    let h = w.hs.last().unwrap();
                    w.ids.push(each!(h, o => o.as_ref().unwrap().id().to_string()));
                    w.over.push(false);
                    emit(&w, json!({"n": if md { "md" } else { "html" }, "c": k, "len": n.max(1)}), json!({"k": "ok", "v": 0}));
                }
                3 if !imports_open && open.len() < 5 => {
                    let bad = r.below(3) == 0;
                    let p = if bad { format!("{dir}/none/x.docx") } else { format!("{dir}/{}.docx", w.ids.len()) };
                    let n = w.doc.block_count();
                    w.hs.push(H::D(Some(w.doc.to_docx(&p).unwrap())));
                    let h = w.hs.last().unwrap();
                    w.ids.push(each!(h, o => o.as_ref().unwrap().id().to_string()));
                    w.over.push(false);
                    emit(&w, json!({"n": "docx", "bad": bad, "len": n}), json!({"k": "ok", "v": 0}));
                }
                4 | 5 if !open.is_empty() => {
                    let j = pick(&mut r);
                    spin((r.below(4) * r.below(1500)) as u64);
                    each!(&w.hs[j], o => o.as_ref().unwrap().cancel());
                    emit(&w, json!({"n": "cancel", "j": j + 1}), json!({"k": "ok", "v": 0}));
                }
                6 if !open.is_empty() => {
                    let j = pick(&mut r);
                    let d = each!(&w.hs[j], o => o.as_ref().unwrap().is_done());
                    w.over[j] |= d;
                    emit(&w, json!({"n": "done", "j": j + 1}), json!({"k": if d { "yes" } else { "none" }, "v": 0}));
                }
                7 if !open.is_empty() => {
                    let j = pick(&mut r);
                    let v = match &mut w.hs[j] {
                        H::M(o) => said(o.as_mut().unwrap().try_result(), |x| x.block_count),
                        H::W(o) => said(o.as_mut().unwrap().try_result(), |x| x.block_count),
                        H::D(o) => said(o.as_mut().unwrap().try_result(), |x| x.paragraph_count),
                    };
                    w.over[j] |= v["k"] != "none";
                    emit(&w, json!({"n": "try", "j": j + 1}), v);
                }
                8 | 9 if !open.is_empty() => {
                    let j = pick(&mut r);
                    let limit = r.below(2) == 0;
                    fn wait<T: Send + 'static>(o: Operation<T>, limit: bool, n: fn(&T) -> usize) -> Value {
                        let t = Duration::from_secs(20);
                        if limit {
                            return said(o.wait_timeout(t), n);
                        }
                        let (tx, rx) = std::sync::mpsc::channel();
                        std::thread::spawn(move || tx.send(o.wait()));
                        said(rx.recv_timeout(t).ok(), n)
                    }
                    let v = match &mut w.hs[j] {
                        H::M(o) => wait(o.take().unwrap(), limit, |x| x.block_count),
                        H::W(o) => wait(o.take().unwrap(), limit, |x| x.block_count),
                        H::D(o) => wait(o.take().unwrap(), limit, |x| x.paragraph_count),
                    };
                    w.over[j] = true;
                    let stuck = v["k"] == "none";
                    emit(&w, json!({"n": "wait", "j": j + 1}), v);
                    if stuck {
                        break;
                    }
                }
                10 if quiet => {
                    w.cur.insert_text("+").unwrap();
                    w.texts.push(w.doc.to_plain_text().unwrap());
                    let u = w.doc.can_undo();
                    emit(&w, json!({"n": "edit", "c": w.texts.len() - 1}), json!({"k": if u { "ok" } else { "none" }, "v": 0}));
                }
                _ if !imports_open => {
                    // Everything asked to run is announced within a reasonable time.
                    let count = |w: &W| w.heard.lock().unwrap().iter().filter(|e| matches!(e, DocumentEvent::LongOperationFinished { .. })).count();
                    let end = Instant::now() + Duration::from_secs(5);
                    while count(&w) < w.ids.len() && Instant::now() < end {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    for j in 0..w.hs.len() {
                        if let H::D(Some(o)) = &w.hs[j] {
                            while !o.is_done() && Instant::now() < end {
                                std::thread::sleep(Duration::from_micros(300));
                            }
                            w.over[j] = o.is_done();
                        }
                    }
                    emit(&w, json!({"n": "settle"}), json!({"k": "ok", "v": 0}));
                }
                _ => {}
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
}
