//! Applies operations (JSON values) to a real document and logs the observable state after each.
use crate::proj::*;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use text_document::*;
use unicode_segmentation::UnicodeSegmentation;

pub struct Sess {
    pub doc: TextDocument,
    pub cur: Vec<Option<std::rc::Rc<TextCursor>>>,
    pub frags: Vec<DocumentFragment>,
    pub frag_imgs: bool,
    pub tables: bool,
    pub hl: bool,
    pub heard: Option<std::sync::Arc<std::sync::Mutex<Vec<DocumentEvent>>>>,
    pub _sub: Option<Subscription>,
}
pub fn us(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}
pub fn sv(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}
pub fn ok(v: Value) -> Value {
    json!({"k":"ok","v":v})
}
fn r0<E: std::fmt::Display>(r: std::result::Result<(), E>) -> Value {
    match r {
        Ok(()) => ok(json!(0)),
        Err(e) => json!({"k":"err","v":e.to_string()}),
    }
}
fn rv<T, E: std::fmt::Display>(r: std::result::Result<T, E>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(x) => ok(f(x)),
        Err(e) => json!({"k":"err","v":e.to_string()}),
    }
}
fn mode(v: &Value) -> MoveMode {
    if us(v, "m") == 1 { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor }
}
pub const MOVES: [&str; 21] = [
    "NoMove", "Start", "End", "StartOfLine", "EndOfLine", "StartOfBlock", "EndOfBlock", "StartOfWord", "EndOfWord",
    "PreviousBlock", "NextBlock", "PreviousCharacter", "NextCharacter", "PreviousWord", "NextWord", "Up", "Down",
    "Left", "Right", "WordLeft", "WordRight",
];
fn move_op(s: &str) -> MoveOperation {
    use MoveOperation::*;
    match s {
        "NoMove" => NoMove,
        "Start" => Start,
        "End" => End,
        "StartOfLine" => StartOfLine,
        "EndOfLine" => EndOfLine,
        "StartOfBlock" => StartOfBlock,
        "EndOfBlock" => EndOfBlock,
        "StartOfWord" => StartOfWord,
        "EndOfWord" => EndOfWord,
        "PreviousBlock" => PreviousBlock,
        "NextBlock" => NextBlock,
        "PreviousCharacter" => PreviousCharacter,
        "NextCharacter" => NextCharacter,
        "PreviousWord" => PreviousWord,
        "NextWord" => NextWord,
        "Up" => Up,
        "Down" => Down,
        "Left" => Left,
        "Right" => Right,
        "WordLeft" => WordLeft,
        _ => WordRight,
    }
}
pub fn opts(v: &Value) -> FindOptions {
    FindOptions {
        case_sensitive: v["cs"].as_bool().unwrap_or(false),
        whole_word: v["ww"].as_bool().unwrap_or(false),
        use_regex: v["rx"].as_bool().unwrap_or(false),
        search_backward: v["bk"].as_bool().unwrap_or(false),
    }
}
fn lfmt(d: &[String]) -> ListFormat {
    ListFormat {
        style: d[0].strip_prefix('=').map(style_of),
        indent: d[1].strip_prefix('=').and_then(|x| x.parse().ok()),
        prefix: d[2].strip_prefix('=').map(String::from),
        suffix: d[3].strip_prefix('=').map(String::from),
    }
}
pub fn dir_of(s: &str) -> TextDirection {
    if s == "RightToLeft" { TextDirection::RightToLeft } else { TextDirection::LeftToRight }
}
pub fn wrap_of(s: &str) -> WrapMode {
    match s {
        "NoWrap" => WrapMode::NoWrap,
        "WrapAnywhere" => WrapMode::WrapAnywhere,
        "WrapAtWordBoundaryOrAnywhere" => WrapMode::WrapAtWordBoundaryOrAnywhere,
        _ => WrapMode::WordWrap,
    }
}

/// Grapheme cluster boundaries of the document text as document positions, from the block texts.
pub fn graphemes(doc: &TextDocument) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    for b in doc.blocks() {
        let t = b.text();
        for g in t.graphemes(true) {
            v.push(p);
            p += g.chars().count();
        }
        v.push(p);
        p += 1;
    }
    v
}
/// Unicode words as [start, end) document positions per block.
pub fn words(doc: &TextDocument) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 0;
    for b in doc.blocks() {
        let t = b.text();
        for (i, w) in t.unicode_word_indices() {
            let s = p + t[..i].chars().count();
            v.push((s, s + w.chars().count()));
        }
        p += t.chars().count() + 1;
    }
    v
}

/// The storage below the document: rope, offset index (starts in characters) and format runs (in bytes).
fn rope_json(d: &TextDocument) -> Value {
    let s = d.rope_store_for_test();
    let rope = s.rope.read().unwrap().to_string();
    let x = s.block_offsets.read().unwrap();
    let idx: Vec<Value> = x
        .entries
        .iter()
        .map(|(m, b)| {
            let c = rope.get(..*b as usize).map_or(-1, |t| t.chars().count() as i64);
            match m {
                common::database::block_offset_index::OffsetMarker::Block(i) => json!(["b", i, c]),
                common::database::block_offset_index::OffsetMarker::TableAnchor(i) => json!(["t", i, c]),
            }
        })
        .collect();
    let total = rope.get(..x.total_bytes() as usize).map_or(-1, |t| t.chars().count() as i64);
    let runs = s.format_runs.read().unwrap();
    let mut seen: Vec<_> = vec![];
    let f: Vec<Value> = d
        .blocks()
        .iter()
        .map(|b| {
            let t = b.text();
            let rs = runs.get(&(b.id() as u64)).cloned().unwrap_or_default();
            let c = |b: u32| t.get(..b as usize).map_or(-1, |x| x.chars().count() as i64);
            json!(
                rs.iter()
                    .map(|r| {
                        let k = seen.iter().position(|f| *f == r.format).unwrap_or_else(|| {
                            seen.push(r.format.clone());
                            seen.len() - 1
                        });
                        json!([c(r.byte_start), c(r.byte_end), k])
                    })
                    .collect::<Vec<_>>()
            )
        })
        .collect();
    json!({"t": chars(&rope), "x": idx, "n": total, "f": f})
}

impl Sess {
    pub fn new(text: &str) -> Self {
        let doc = TextDocument::new();
        if !text.is_empty() {
            doc.set_plain_text(text).unwrap();
        }
        doc.poll_events();
        let (mut heard, mut sub) = (None, None);
        if std::env::var("VH_CB").is_ok() {
            let h = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let h2 = h.clone();
            sub = Some(doc.on_change(move |e| h2.lock().unwrap().push(e)));
            heard = Some(h);
        }
        Sess { doc, cur: vec![], frags: vec![], frag_imgs: false, tables: false, hl: false, heard, _sub: sub }
    }
    pub fn c(&self, op: &Value) -> Option<std::rc::Rc<TextCursor>> {
        self.cur.get(us(op, "c")).cloned().flatten()
    }
    pub fn state(&self, ft: &mut Fmts) -> Value {
        let d = &self.doc;
        let ev: Vec<Value> = d.poll_events().iter().map(ev_json).collect();
        let blocks = d.blocks();
        let mut lists: Vec<usize> = vec![];
        let mut ls = vec![];
        for b in &blocks {
            if let Some(l) = b.list() {
                if !lists.contains(&l.id()) {
                    lists.push(l.id());
                    ls.push(list_json(&l));
                }
            }
        }
        let flow = d.flow();
        let mut st = json!({
            "B": blocks.iter().map(|b| block_json(b, ft)).collect::<Vec<_>>(),
            "C": self.cur.iter().map(|c| match c {
                Some(c) => json!([c.position() as i64, c.anchor() as i64]),
                None => json!([-1, -1]),
            }).collect::<Vec<_>>(),
            "u": d.can_undo(), "r": d.can_redo(), "m": d.is_modified(),
            "bc": d.block_count(), "cc": d.character_count(),
            "ev": ev, "L": ls, "K": flow_json(&flow),
            "T": [d.title(), format!("{:?}", d.text_direction()), format!("{:?}", d.default_wrap_mode())],
        });
        if std::env::var("VH_RES").is_ok() {
            st["Z"] = json!(["a", "b"].iter().map(|n| match d.resource(n) {
                Ok(None) => json!([]),
                Ok(Some(b)) => json!([b]),
                Err(_) => json!(["error"]),
            }).collect::<Vec<_>>());
        }
        if let Some(heard) = &self.heard {
            let h = std::mem::take(&mut *heard.lock().unwrap());
            st["cb"] = json!(h.iter().map(ev_json).collect::<Vec<_>>());
        }
        if std::env::var("VH_ROPE").is_ok() {
            st["R"] = rope_json(d);
        }
        if std::env::var("VH_HL").is_ok() {
            st["H"] = crate::hl::hl_json(d, self.hl);
        }
        if self.tables {
            st["G"] = json!(
                flow.iter()
                    .filter_map(|e| if let FlowElement::Table(t) = e { Some(table_json(t, ft)) } else { None })
                    .collect::<Vec<_>>()
            );
        }
        st
    }
    /// Enriches an op with what the specification needs from the text before it runs.
    pub fn enrich(&self, op: &mut Value) {
        match op["n"].as_str().unwrap_or("") {
            "del" | "bsp" | "setp" | "newc" => op["g"] = json!(graphemes(&self.doc)),
            "mov" | "sel" => {
                op["g"] = json!(graphemes(&self.doc));
                op["w"] = json!(words(&self.doc).iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>());
                op["wc"] = json!(
                    self.doc.blocks().iter().enumerate().flat_map(|(i, b)| {
                        let mut v: Vec<bool> = if i > 0 { vec![false] } else { vec![] };
                        v.extend(b.text().chars().map(|c| c.is_alphanumeric() || c == '_'));
                        v
                    }).collect::<Vec<_>>()
                );
            }
            "find" | "finda" | "repl" => {
                if op["o"]["ww"] == true {
                    op["w"] = json!(words(&self.doc).iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>());
                }
                if op["o"]["cs"] != true {
                    let text = self.doc.blocks().iter().map(|b| b.text()).collect::<Vec<_>>().join("\n");
                    let lower: Vec<String> = chars(&text.to_lowercase());
                    let mut i = 0;
                    op["fl"] = json!(
                        text.chars()
                            .map(|c| {
                                let n = c.to_lowercase().count();
                                i += n;
                                lower[i - n..i].to_vec()
                            })
                            .collect::<Vec<_>>()
                    );
                    op["ql"] = json!(chars(&unchars(&op["q"]).to_lowercase()));
                }
            }
            _ => {}
        }
    }
    pub fn apply(&mut self, op: &Value, ft: &mut Fmts) -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| self.apply_inner(op, ft)));
        match r {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"k":"panic","v":m})
            }
        }
    }
    fn keep(&mut self, f: DocumentFragment) -> Value {
        let (t, e) = (chars(f.to_plain_text()), f.is_empty());
        self.frags.push(f);
        ok(json!({"k": self.frags.len() - 1, "t": t, "e": e}))
    }
    fn apply_inner(&mut self, op: &Value, ft: &mut Fmts) -> Value {
        let n = op["n"].as_str().unwrap_or("");
        let d = self.doc.clone();
        // Calls that need no cursor.
        match n {
            "undo" => return r0(d.undo()),
            "redo" => return r0(d.redo()),
            "clr" => {
                d.clear_undo_redo();
                return ok(json!(0));
            }
            "spt" => return r0(d.set_plain_text(&op["raw"].as_str().map(String::from).unwrap_or_else(|| unchars(&op["s"])))),
            "clear" => return r0(d.clear()),
            "newc" => {
                self.cur.push(Some(std::rc::Rc::new(d.cursor_at(us(op, "p")))));
                return ok(json!(self.cur.len() - 1));
            }
            "title" => return r0(d.set_title(op["v"].as_str().unwrap())),
            "dir" => return r0(d.set_text_direction(dir_of(op["v"].as_str().unwrap()))),
            "wrap" => return r0(d.set_default_wrap_mode(wrap_of(op["v"].as_str().unwrap()))),
            "setm" => {
                d.set_modified(op["v"].as_bool().unwrap());
                return ok(json!(0));
            }
            "pause" => {
                std::thread::sleep(std::time::Duration::from_millis(op["k"].as_u64().unwrap_or(2150)));
                return ok(json!(0));
            }
            "find" => {
                return rv(d.find(&unchars(&op["q"]), us(op, "p"), &opts(&op["o"])), |m| match m {
                    None => json!([]),
                    Some(m) => json!([[m.position, m.length]]),
                });
            }
            "finda" => {
                return rv(d.find_all(&unchars(&op["q"]), &opts(&op["o"])), |m| {
                    json!(m.iter().map(|m| json!([m.position, m.length])).collect::<Vec<_>>())
                });
            }
            "repl" => {
                return rv(
                    d.replace_text(&unchars(&op["q"]), &unchars(&op["s"]), op["all"].as_bool().unwrap(), &opts(&op["o"])),
                    |n| json!(n),
                );
            }
            "res" => {
                let data: Vec<u8> = op["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                return r0(d.add_resource(ResourceType::Image, op["v"].as_str().unwrap(), "image/png", &data));
            }
            "getres" => {
                return rv(d.resource(op["v"].as_str().unwrap()), |m| match m {
                    None => json!([]),
                    Some(b) => json!([b]),
                });
            }
            "drop" => {
                let i = us(op, "c");
                if let Some(x) = self.cur.get_mut(i) {
                    *x = None;
                }
                return ok(json!(0));
            }
            "hlon" | "hloff" | "rehl" | "rehlb" => return crate::hl::call(&d, op, &mut self.hl),
            "views" => return ok(crate::views::views(&d, ft)),
            "fragpt" => return self.keep(DocumentFragment::from_plain_text(&unchars(&op["s"]))),
            "fragdoc" => {
                return match DocumentFragment::from_document(&d) {
                    Ok(f) => self.keep(f),
                    Err(e) => json!({"k":"err","v":e.to_string()}),
                };
            }
            _ => {}
        }
        let Some(c) = self.c(op) else { return json!({"k":"skip","v":0}) };
        match n {
            "ins" => r0(c.insert_text(&unchars(&op["s"]))),
            "insf" => r0(c.insert_formatted_text(&unchars(&op["s"]), &vec_fmt(&sv(&op["d"])))),
            "blk" => r0(c.insert_block()),
            "del" => r0(c.delete_char()),
            "bsp" => r0(c.delete_previous_char()),
            "rms" => rv(c.remove_selected_text(), |s| json!(chars(&s))),
            "seltxt" => rv(c.selected_text(), |s| json!(chars(&s))),
            "setf" => r0(c.set_char_format(&vec_fmt(&sv(&op["d"])))),
            "mrgf" => r0(c.merge_char_format(&vec_fmt(&sv(&op["d"])))),
            "setb" => r0(c.set_block_format(&vec_bf(&sv(&op["d"])))),
            "cl" => r0(c.create_list(style_of(op["y"].as_str().unwrap()))),
            "il" => r0(c.insert_list(style_of(op["y"].as_str().unwrap()))),
            "addl" => r0(c.add_block_to_list(us(op, "b"), us(op, "l"))),
            "addcur" => r0(c.add_current_block_to_list(us(op, "l"))),
            "reml" => r0(c.remove_block_from_list(us(op, "b"))),
            "remcur" => r0(c.remove_current_block_from_list()),
            "rli" => r0(c.remove_list_item(us(op, "l"), us(op, "i"))),
            "setl" => r0(c.set_list_format(us(op, "l"), &lfmt(&sv(&op["d"])))),
            "setcl" => r0(c.set_current_list_format(&lfmt(&sv(&op["d"])))),
            "curl" => ok(json!(c.current_list().map(|l| l.id() as i64).unwrap_or(-1))),
            "ebeg" => {
                c.begin_edit_block();
                ok(json!(0))
            }
            "eend" => {
                c.end_edit_block();
                ok(json!(0))
            }
            "setp" => {
                c.set_position(us(op, "p"), mode(op));
                ok(json!(0))
            }
            "mov" => ok(json!(c.move_position(move_op(op["o"].as_str().unwrap()), mode(op), us(op, "k")))),
            "sel" => {
                c.select(match op["y"].as_str().unwrap() {
                    "Word" => SelectionType::WordUnderCursor,
                    "Line" => SelectionType::LineUnderCursor,
                    "Block" => SelectionType::BlockUnderCursor,
                    _ => SelectionType::Document,
                });
                ok(json!(0))
            }
            "clrsel" => {
                c.clear_selection();
                ok(json!(0))
            }
            "clone" => {
                self.cur.push(Some(std::rc::Rc::new(TextCursor::clone(&c))));
                ok(json!(self.cur.len() - 1))
            }
            "copy" => self.keep(c.selection()),
            "fragtxt" => match self.frags.get(us(op, "f")) {
                Some(f) => ok(json!(chars(f.to_plain_text()))),
                None => json!({"k":"skip","v":0}),
            },
            "paste" => match self.frags.get(us(op, "f")) {
                Some(f) => r0(c.insert_fragment(f)),
                None => json!({"k":"skip","v":0}),
            },
            "md" => r0(c.insert_markdown(op["v"].as_str().unwrap())),
            "html" => r0(c.insert_html(op["v"].as_str().unwrap())),
            "img" => r0(c.insert_image(op["v"].as_str().unwrap(), us(op, "w") as u32, us(op, "h") as u32)),
            "itab" => rv(c.insert_table(us(op, "r"), us(op, "k")), |t| json!(t.id())),
            "rtab" => r0(c.remove_table(us(op, "t"))),
            "irow" => r0(c.insert_table_row(us(op, "t"), us(op, "i"))),
            "icol" => r0(c.insert_table_column(us(op, "t"), us(op, "i"))),
            "drow" => r0(c.remove_table_row(us(op, "t"), us(op, "i"))),
            "dcol" => r0(c.remove_table_column(us(op, "t"), us(op, "i"))),
            "mcell" => r0(c.merge_table_cells(us(op, "t"), us(op, "r1"), us(op, "c1"), us(op, "r2"), us(op, "c2"))),
            "scell" => r0(c.split_table_cell(us(op, "b"), us(op, "r"), us(op, "k"))),
            "tfmt" => {
                let v = sv(&op["d"]);
                let p = |s: &String| s.strip_prefix('=').and_then(|x| x.parse::<i32>().ok());
                r0(c.set_table_format(us(op, "t"), &TableFormat {
                    border: p(&v[0]),
                    cell_spacing: p(&v[1]),
                    cell_padding: p(&v[2]),
                    width: p(&v[3]),
                    alignment: v[4].strip_prefix('=').map(|s| match s {
                        "Left" => Alignment::Left,
                        "Right" => Alignment::Right,
                        "Center" => Alignment::Center,
                        _ => Alignment::Justify,
                    }),
                }))
            }
            "cfmt" => {
                let v = sv(&op["d"]);
                let p = |s: &String| s.strip_prefix('=').and_then(|x| x.parse::<i32>().ok());
                r0(c.set_table_cell_format(us(op, "b"), &CellFormat {
                    padding: p(&v[0]),
                    border: p(&v[1]),
                    vertical_alignment: v[2].strip_prefix('=').map(|s| match s {
                        "Middle" => CellVerticalAlignment::Middle,
                        "Bottom" => CellVerticalAlignment::Bottom,
                        _ => CellVerticalAlignment::Top,
                    }),
                    background_color: v[3].strip_prefix('=').map(String::from),
                }))
            }
            _ => json!({"k":"skip","v":format!("unknown op {n}")}),
        }
    }
}
