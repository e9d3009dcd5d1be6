//! Replays Events.tla: the same calls on a real document, with listeners that call back into it.
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use text_document::*;

#[derive(Default)]
struct World {
    doc: Option<TextDocument>,
    subs: Vec<Option<Subscription>>,
    arms: Vec<Value>,
    got: Vec<Vec<DocumentEvent>>,
    polls: Vec<Vec<DocumentEvent>>,
    reads: Vec<i64>,
}
type W = Arc<Mutex<World>>;

/// Performs an edit at the end of the document.
fn edit(doc: &TextDocument, kind: &str) {
    let c = doc.cursor_at(0);
    c.move_position(MoveOperation::End, MoveMode::MoveAnchor, 1);
    match kind {
        "ins" => c.insert_text("x").unwrap(),
        "blk" => c.insert_block().unwrap(),
        // a failed edit and one that changes nothing say nothing
        _ => {
            assert!(c.insert_image("", 0, 0).is_err());
            c.delete_char().unwrap();
            doc.set_modified(doc.is_modified());
        }
    }
}
/// Characters and separators: every edit adds one.
fn size(doc: &TextDocument) -> i64 {
    (doc.character_count() + doc.block_count()) as i64
}

fn act(w: &W, a: &Value) {
    let doc = w.lock().unwrap().doc.clone().unwrap();
    let j = || a[1].as_u64().unwrap() as usize - 1;
    match a[0].as_str().unwrap() {
        "poll" => {
            let p = doc.poll_events();
            w.lock().unwrap().polls.push(p);
        }
        "read" => {
            let n = size(&doc);
            assert_eq!(n, doc.to_plain_text().unwrap().chars().count() as i64 + 1);
            w.lock().unwrap().reads.push(n);
        }
        "sub" => {
            let k = w.lock().unwrap().got.len();
            if k >= 3 {
                return;
            }
            {
                let mut x = w.lock().unwrap();
                x.got.push(vec![]);
                x.arms.push(serde_json::json!(["none"]));
            }
            let w2 = Arc::downgrade(w);
            let s = doc.on_change(move |e| {
                let w = w2.upgrade().unwrap();
                let a = {
                    let mut x = w.lock().unwrap();
                    x.got[k].push(e);
                    std::mem::replace(&mut x.arms[k], serde_json::json!(["none"]))
                };
                if a[0] != "none" {
                    act(&w, &a);
                }
            });
            w.lock().unwrap().subs.push(Some(s));
        }
        "drop" => {
            let s = {
                let mut x = w.lock().unwrap();
                if j() >= x.subs.len() {
                    return;
                }
                x.arms[j()] = serde_json::json!(["none"]);
                x.subs[j()].take()
            };
            drop(s);
        }
        "arm" => w.lock().unwrap().arms[j()] = a[2].clone(),
        k => edit(&doc, k),
    }
}

fn fresh() -> TextDocument {
    let d = TextDocument::new();
    edit(&d, "ins");
    d.poll_events();
    d
}

fn one(raw: &str) -> Option<(String, Value)> {
    let c: Value = serde_json::from_str(raw).unwrap();
    let path = c["path"].as_array().unwrap();
    let last = path.last().unwrap().clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        // What the edits say, one after the other and nobody listening.
        let d = fresh();
        let mut log = vec![];
        for k in c["e"].as_array().unwrap() {
            let k = k.as_str().unwrap();
            edit(&d, k);
            let e = d.poll_events();
            if e.len() != if k == "ins" { 2 } else { 4 } {
                return Some(format!("{k} says {e:?}"));
            }
            log.extend(e);
        }
        let w: W = Arc::default();
        w.lock().unwrap().doc = Some(fresh());
        let base = size(&fresh());
        for a in path {
            act(&w, a);
        }
        let x = w.lock().unwrap();
        let show = |v: &[DocumentEvent]| format!("{v:?}");
        for (j, g) in c["got"].as_array().unwrap().iter().enumerate() {
            let want: Vec<_> =
                g.as_array().unwrap().iter().map(|i| log[i.as_u64().unwrap() as usize - 1].clone()).collect();
            if show(&x.got[j]) != show(&want) {
                return Some(format!("listener {} got {:?} instead of {:?}", j + 1, x.got[j], want));
            }
        }
        let polls = c["polls"].as_array().unwrap();
        if polls.len() != x.polls.len() {
            return Some("polls".into());
        }
        for (j, p) in polls.iter().enumerate() {
            let want = &log[p[0].as_u64().unwrap() as usize..p[1].as_u64().unwrap() as usize];
            if show(&x.polls[j]) != show(want) {
                return Some(format!("poll {} returned {:?} instead of {:?}", j + 1, x.polls[j], want));
            }
        }
        let reads: Vec<i64> = c["reads"].as_array().unwrap().iter().map(|r| r.as_i64().unwrap() + base).collect();
        if reads != x.reads {
            return Some(format!("reads {:?} instead of {:?}", x.reads, reads));
        }
        None
    }));
    match r {
        Ok(None) => None,
        Ok(Some(d)) => Some((d, last)),
        Err(_) => Some(("panic".into(), last)),
    }
}
pub fn run(input: &str, output: &str) {
    // A listener that deadlocks the document would never come back.
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(600));
        eprintln!("deadlock");
        std::process::abort();
    });
    crate::cases(input, output, "eventsmc", one);
}
