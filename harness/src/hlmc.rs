//! Replays `Spans.tla` (what overlapping spans show) and `Cascade.tla` (incremental highlighting).
use crate::hl::*;
use crate::proj::unchars;
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};
use text_document::*;

/// Highlights with exactly the given spans.
struct Given(Arc<Mutex<Vec<HighlightSpan>>>);
impl SyntaxHighlighter for Given {
    fn highlight_block(&self, _: &str, ctx: &mut HighlightContext) {
        for s in self.0.lock().unwrap().iter() {
            ctx.set_format(s.start, s.length, s.format.clone());
        }
    }
}
const COLOR: [Color; 2] = [Color { red: 1, green: 0, blue: 0, alpha: 255 }, Color { red: 2, green: 9, blue: 0, alpha: 255 }];
fn v(x: &str) -> Option<usize> {
    match x {
        "x" => Some(0),
        "y" => Some(1),
        _ => None,
    }
}
/// The k-th of the 16 fields set to its i-th value.
fn put(h: &mut HighlightFormat, k: usize, i: usize) {
    match k {
        0 => h.font_family = Some(["F", "G"][i].into()),
        1 => h.font_point_size = Some([8, 12][i]),
        2 => h.font_weight = Some([100, 700][i]),
        3 => h.font_bold = Some(i == 0),
        4 => h.font_italic = Some(i == 0),
        5 => h.font_underline = Some(i == 0),
        6 => h.font_overline = Some(i == 0),
        7 => h.font_strikeout = Some(i == 0),
        8 => h.letter_spacing = Some([1, 2][i]),
        9 => h.word_spacing = Some([1, 2][i]),
        10 => h.underline_style = Some([UnderlineStyle::SingleUnderline, UnderlineStyle::WaveUnderline][i].clone()),
        11 => h.vertical_alignment = Some([CharVerticalAlignment::SuperScript, CharVerticalAlignment::SubScript][i].clone()),
        12 => h.tooltip = Some(["x", "y"][i].into()),
        13 => h.foreground_color = Some(COLOR[i]),
        14 => h.background_color = Some(COLOR[i]),
        _ => h.underline_color = Some(COLOR[i]),
    }
}
fn as_text(h: &HighlightFormat) -> TextFormat {
    TextFormat {
        font_family: h.font_family.clone(),
        font_point_size: h.font_point_size,
        font_weight: h.font_weight,
        font_bold: h.font_bold,
        font_italic: h.font_italic,
        font_underline: h.font_underline,
        font_overline: h.font_overline,
        font_strikeout: h.font_strikeout,
        letter_spacing: h.letter_spacing,
        word_spacing: h.word_spacing,
        underline_style: h.underline_style.clone(),
        vertical_alignment: h.vertical_alignment.clone(),
        ..Default::default()
    }
}
/// Which value field k of a shown format has.
fn get(f: &TextFormat, k: usize) -> &'static str {
    for (i, n) in ["x", "y"].iter().enumerate() {
        let mut h = HighlightFormat::default();
        put(&mut h, k, i);
        let eq = match k {
            0 => f.font_family == h.font_family,
            1 => f.font_point_size == h.font_point_size,
            2 => f.font_weight == h.font_weight,
            3 => f.font_bold == h.font_bold,
            4 => f.font_italic == h.font_italic,
            5 => f.font_underline == h.font_underline,
            6 => f.font_overline == h.font_overline,
            7 => f.font_strikeout == h.font_strikeout,
            8 => f.letter_spacing == h.letter_spacing,
            9 => f.word_spacing == h.word_spacing,
            10 => f.underline_style == h.underline_style,
            11 => f.vertical_alignment == h.vertical_alignment,
            12 => f.tooltip == h.tooltip,
            13 => f.foreground_color == h.foreground_color,
            14 => f.background_color == h.background_color,
            _ => f.underline_color == h.underline_color,
        };
        if eq {
            return n;
        }
    }
    let mut none = f.clone();
    // anything that is neither unset nor one of the two values shows as "?"
    none.font_family = none.font_family.filter(|s| !s.is_empty());
    let set = match k {
        0 => none.font_family.is_some(),
        1 => f.font_point_size.is_some_and(|x| x != 0),
        2 => f.font_weight.is_some(),
        3 => f.font_bold.is_some(),
        4 => f.font_italic.is_some(),
        5 => f.font_underline.is_some(),
        6 => f.font_overline.is_some(),
        7 => f.font_strikeout.is_some(),
        8 => f.letter_spacing.is_some(),
        9 => f.word_spacing.is_some(),
        10 => f.underline_style.is_some(),
        11 => f.vertical_alignment.is_some(),
        12 => f.tooltip.is_some(),
        13 => f.foreground_color.is_some(),
        14 => f.background_color.is_some(),
        _ => f.underline_color.is_some(),
    };
    if set { "?" } else { "-" }
}
struct Bench {
    doc: TextDocument,
    spans: Arc<Mutex<Vec<HighlightSpan>>>,
    k: [usize; 2],
}
fn bench(k: [usize; 2]) -> Bench {
    let doc = TextDocument::new();
    doc.set_plain_text("abc").unwrap();
    doc.cursor_at(2).insert_image("i", 1, 1).unwrap();
    let paint = |a: usize, b: usize, k: usize, i: usize| {
        let mut h = HighlightFormat::default();
        put(&mut h, k, i);
        let c = doc.cursor_at(a);
        c.set_position(b, MoveMode::KeepAnchor);
        if k < 12 {
            c.set_char_format(&as_text(&h)).unwrap();
        }
    };
    paint(0, 2, k[0], 0);
    paint(3, 4, k[1], 1);
    let spans = Arc::new(Mutex::new(vec![]));
    doc.set_syntax_highlighter(Some(Arc::new(Given(spans.clone()))));
    Bench { doc, spans, k }
}
thread_local! {
    static BENCHES: Vec<Bench> = (0..8).map(|j| bench([j, j + 8])).chain([bench([12, 3]), bench([0, 7])]).collect();
}
pub fn spans_case(raw: &str) -> Option<(String, Value)> {
    let c: Value = serde_json::from_str(raw).unwrap();
    BENCHES.with(|bs| {
        for b in bs {
            let sp: Vec<HighlightSpan> = c["spans"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let mut h = HighlightFormat::default();
                    for j in 0..2 {
                        if let Some(i) = v(s["f"][j].as_str().unwrap()) {
                            put(&mut h, b.k[j], i);
                        }
                    }
                    HighlightSpan { start: s["a"].as_u64().unwrap() as usize, length: s["n"].as_u64().unwrap() as usize, format: h }
                })
                .collect();
            *b.spans.lock().unwrap() = sp;
            b.doc.rehighlight();
            let blk = &b.doc.blocks()[0];
            let (mut at, mut shown, mut text) = (0, vec![], String::new());
            for f in blk.fragments() {
                let (fmt, n, off, t) = match f {
                    FragmentContent::Text { text, format, offset, length, .. } => {
                        if text.chars().count() != length {
                            return Some((format!("fragment {text:?} has length {length}"), c["spans"].clone()));
                        }
                        (format, length, offset, text)
                    }
                    FragmentContent::Image { format, offset, .. } => (format, 1, offset, "\u{fffc}".into()),
                };
                if off != at {
                    return Some((format!("a fragment starts at {off} instead of {at}"), c["spans"].clone()));
                }
                at += n;
                text.push_str(&t);
                for _ in 0..n {
                    shown.push([get(&fmt, b.k[0]), get(&fmt, b.k[1])]);
                }
            }
            if text != blk.text() {
                return Some((format!("fragments hold {text:?} instead of {:?}", blk.text()), c["spans"].clone()));
            }
            for j in 0..2 {
                let want = if b.k[j] < 12 { &c["want"] } else { &c["bare"] };
                for k in 0..4 {
                    if shown.get(k).map(|x| x[j]) != want[k][j].as_str() {
                        return Some((
                            format!("character {k} field {} shows {:?} instead of {}", b.k[j], shown.get(k).map(|x| x[j]), want[k][j]),
                            c["spans"].clone(),
                        ));
                    }
                }
            }
        }
        None
    })
}

pub fn cascade_case(raw: &str) -> Option<(String, Value)> {
    let h: Value = serde_json::from_str(raw).unwrap();
    let h = h.as_array().unwrap();
    let doc = TextDocument::new();
    let text = h[0][1].as_array().unwrap().iter().map(unchars).collect::<Vec<_>>().join("\n");
    doc.set_plain_text(&text).unwrap();
    doc.set_syntax_highlighter(Some(Arc::new(Machine)));
    for (k, step) in h.iter().enumerate() {
        let op = &step[0];
        let u = |x: &str| op[x].as_u64().unwrap() as usize;
        let s = |x: &str| op[x].as_str().unwrap_or("").to_string();
        let c = doc.cursor();
        // in an edit block, so that steps do not merge
        let run = |f: &dyn Fn() -> anyhow::Result<()>| {
            c.begin_edit_block();
            let r = f();
            c.end_edit_block();
            r
        };
        let r: anyhow::Result<()> = match op["n"].as_str().unwrap() {
            "ins" => {
                c.set_position(u("p"), MoveMode::MoveAnchor);
                run(&|| Ok(c.insert_text(&s("s"))?))
            }
            "blk" => {
                c.set_position(u("p"), MoveMode::MoveAnchor);
                run(&|| Ok(c.insert_block()?))
            }
            "over" | "rem" => {
                c.set_position(u("a"), MoveMode::MoveAnchor);
                c.set_position(u("b"), MoveMode::KeepAnchor);
                run(&|| if op["n"] == "over" { Ok(c.insert_text(&s("s"))?) } else { Ok(c.remove_selected_text().map(|_| ())?) })
            }
            "repl" => {
                let o = FindOptions { case_sensitive: true, ..Default::default() };
                doc.replace_text(&s("q"), &s("s"), true, &o).map(|_| ()).map_err(Into::into)
            }
            "undo" => doc.undo().map_err(Into::into),
            "redo" => doc.redo().map_err(Into::into),
            _ => Ok(()),
        };
        if let Err(e) = r {
            return Some((format!("refused: {e}"), op.clone()));
        }
        let got: Vec<Value> = doc.blocks().iter().map(|b| json!(crate::proj::chars(&b.text()))).collect();
        if json!(got) != step[1] {
            return Some((format!("step {k}: the text is {}", json!(got)), op.clone()));
        }
        let shown = hl_json(&doc, true)["t"].clone();
        if shown != step[2] {
            return Some((format!("step {k}: shows {shown}"), op.clone()));
        }
    }
    None
}
