//! A syntax highlighter that carries a state across blocks; `Highlight.tla` defines the same function.
use serde_json::{Value, json};
use std::sync::Arc;
use text_document::*;

pub struct Machine;
fn tip(s: i64) -> HighlightFormat {
    HighlightFormat { tooltip: Some(s.to_string()), ..Default::default() }
}
impl SyntaxHighlighter for Machine {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        let p = ctx.previous_block_state();
        let mut s = p.max(0);
        if p == 2 {
            ctx.set_format(0, text.chars().count() + 3, tip(7));
        }
        if p > 0 {
            let c = Color { red: p as u8, green: 0, blue: 0, alpha: 255 };
            let f = HighlightFormat { foreground_color: Some(c), ..Default::default() };
            ctx.set_format(0, 1, f.clone());
            ctx.set_format(1, usize::MAX, f);
        }
        let mut run: Option<(usize, i64)> = None;
        let mut n = 0;
        for (k, c) in text.chars().enumerate() {
            let t = match c {
                'a' => 1,
                'b' | '.' => 0,
                ' ' if s == 1 => 2,
                _ => s,
            };
            s = t;
            match run {
                Some((_, x)) if x == s => {}
                Some((f, x)) => {
                    if x > 0 {
                        ctx.set_format(f, k - f, tip(x));
                    }
                    run = Some((k, s));
                }
                None => run = Some((k, s)),
            }
            n = k + 1;
        }
        if let Some((f, x)) = run {
            if x > 0 {
                // reaches beyond the end of the block
                ctx.set_format(f, n - f + 2, tip(x));
            }
        }
        if s > 0 {
            ctx.set_current_block_state(s);
        }
    }
}
fn tags(fs: &[FragmentContent]) -> Value {
    let mut v = vec![];
    for x in fs {
        let (f, n) = match x {
            FragmentContent::Text { text, format, .. } => (format, text.chars().count()),
            FragmentContent::Image { format, .. } => (format, 1),
        };
        let t: i64 = f.tooltip.as_ref().and_then(|s| s.parse().ok()).unwrap_or(0);
        let p = f.foreground_color.as_ref().map_or(0, |c| c.red as i64);
        for _ in 0..n {
            v.push(json!([t, p]));
        }
    }
    json!(v)
}
/// What the highlighting shows, per block and character, read two ways.
pub fn hl_json(d: &TextDocument, on: bool) -> Value {
    let bs = d.blocks();
    json!({"on": on,
        "t": bs.iter().map(|b| tags(&b.fragments())).collect::<Vec<_>>(),
        "s": bs.iter().map(|b| tags(&b.snapshot().fragments)).collect::<Vec<_>>()})
}
pub fn exports(d: &TextDocument) -> Vec<String> {
    vec![
        d.to_plain_text().unwrap_or_default(),
        d.to_markdown().unwrap_or_default(),
        d.to_html().unwrap_or_default(),
        d.to_latex("article", true).unwrap_or_default(),
    ]
}
/// Fragments without what the highlighter adds.
pub fn stored(fs: Vec<FragmentContent>) -> Vec<FragmentContent> {
    fs.into_iter()
        .map(|x| match x {
            FragmentContent::Text { text, mut format, offset, length, element_id, word_starts } => {
                format.tooltip = None;
                format.foreground_color = None;
                FragmentContent::Text { text, format, offset, length, element_id, word_starts }
            }
            FragmentContent::Image { name, width, height, quality, mut format, offset, element_id } => {
                format.tooltip = None;
                format.foreground_color = None;
                FragmentContent::Image { name, width, height, quality, format, offset, element_id }
            }
        })
        .collect()
}
pub fn call(d: &TextDocument, op: &Value, on: &mut bool) -> Value {
    let before = exports(d);
    match op["n"].as_str().unwrap() {
        "hlon" => {
            *on = true;
            d.set_syntax_highlighter(Some(Arc::new(Machine)));
        }
        "hloff" => {
            *on = false;
            d.set_syntax_highlighter(None);
        }
        "rehl" => d.rehighlight(),
        _ => d.rehighlight_block(op["b"].as_u64().unwrap() as usize),
    }
    crate::ops::ok(json!(before == exports(d)))
}
