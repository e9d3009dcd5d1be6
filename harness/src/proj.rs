//! Projection of a document to the abstract state of the specification.
use serde_json::{Value, json};
use std::collections::HashMap;
use text_document::*;

/// Interned character formats: index -> vector of field strings ("-" = unset, "=v" = set).
#[derive(Default)]
pub struct Fmts {
    map: HashMap<Vec<String>, usize>,
    pub list: Vec<Vec<String>>,
}
impl Fmts {
    pub fn idx(&mut self, v: Vec<String>) -> usize {
        if let Some(i) = self.map.get(&v) {
            return *i;
        }
        self.list.push(v.clone());
        self.map.insert(v, self.list.len());
        self.list.len()
    }
}

pub fn o<T: std::fmt::Debug>(x: &Option<T>) -> String {
    match x {
        None => "-".into(),
        Some(v) => format!("={v:?}"),
    }
}
pub fn os(x: &Option<String>) -> String {
    match x {
        None => "-".into(),
        Some(v) => format!("={v}"),
    }
}
pub fn fmt_vec(f: &TextFormat) -> Vec<String> {
    vec![
        os(&f.font_family),
        o(&f.font_point_size),
        o(&f.font_weight),
        o(&f.font_bold),
        o(&f.font_italic),
        o(&f.font_underline),
        o(&f.font_overline),
        o(&f.font_strikeout),
        o(&f.letter_spacing),
        o(&f.word_spacing),
        o(&f.underline_style),
        o(&f.vertical_alignment),
        {
            let r = format!(
                "{}|{:?}|{}|{}|{}|{}|{}",
                os(&f.anchor_href),
                f.anchor_names,
                o(&f.is_anchor),
                os(&f.tooltip),
                o(&f.foreground_color),
                o(&f.background_color),
                o(&f.underline_color)
            );
            if r == "-|[]|-|-|-|-|-" { "-".into() } else { format!("={r}") }
        },
        "-".into(),
    ]
}
/// An image's format: the last field names the image.
pub fn img_vec(f: &TextFormat, name: &str, w: u32, h: u32) -> Vec<String> {
    let mut v = fmt_vec(f);
    v[13] = format!("={name}:{w}x{h}");
    v
}
fn unq(s: &str) -> Option<&str> {
    s.strip_prefix('=')
}
fn ub(s: &str) -> Option<bool> {
    unq(s).map(|x| x == "true")
}
fn un<T: std::str::FromStr>(s: &str) -> Option<T> {
    unq(s).and_then(|x| x.parse().ok())
}
/// Inverse of `fmt_vec` for the twelve settable fields.
pub fn vec_fmt(v: &[String]) -> TextFormat {
    TextFormat {
        font_family: unq(&v[0]).map(String::from),
        font_point_size: un(&v[1]),
        font_weight: un(&v[2]),
        font_bold: ub(&v[3]),
        font_italic: ub(&v[4]),
        font_underline: ub(&v[5]),
        font_overline: ub(&v[6]),
        font_strikeout: ub(&v[7]),
        letter_spacing: un(&v[8]),
        word_spacing: un(&v[9]),
        underline_style: unq(&v[10]).map(|s| match s {
            "NoUnderline" => UnderlineStyle::NoUnderline,
            "SingleUnderline" => UnderlineStyle::SingleUnderline,
            "DashUnderline" => UnderlineStyle::DashUnderline,
            "DotLine" => UnderlineStyle::DotLine,
            "DashDotLine" => UnderlineStyle::DashDotLine,
            "DashDotDotLine" => UnderlineStyle::DashDotDotLine,
            "SpellCheckUnderline" => UnderlineStyle::SpellCheckUnderline,
            _ => UnderlineStyle::WaveUnderline,
        }),
        vertical_alignment: unq(&v[11]).map(|s| match s {
            "SuperScript" => CharVerticalAlignment::SuperScript,
            "SubScript" => CharVerticalAlignment::SubScript,
            "Middle" => CharVerticalAlignment::Middle,
            "Bottom" => CharVerticalAlignment::Bottom,
            "Top" => CharVerticalAlignment::Top,
            "Baseline" => CharVerticalAlignment::Baseline,
            _ => CharVerticalAlignment::Normal,
        }),
        ..Default::default()
    }
}
pub fn bf_vec(b: &BlockFormat) -> Vec<String> {
    vec![
        o(&b.alignment),
        o(&b.top_margin),
        o(&b.bottom_margin),
        o(&b.left_margin),
        o(&b.right_margin),
        o(&b.heading_level),
        o(&b.indent),
        o(&b.text_indent),
        o(&b.marker),
        match b.line_height {
            None => "-".into(),
            Some(v) => format!("={}", (v * 1000.0).round() as i64),
        },
        o(&b.non_breakable_lines),
        o(&b.direction),
        os(&b.background_color),
        o(&b.is_code_block),
        os(&b.code_language),
        if b.tab_positions.is_empty() { "-".into() } else { format!("={:?}", b.tab_positions) },
    ]
}
pub fn vec_bf(v: &[String]) -> BlockFormat {
    BlockFormat {
        alignment: unq(&v[0]).map(|s| match s {
            "Left" => Alignment::Left,
            "Right" => Alignment::Right,
            "Center" => Alignment::Center,
            _ => Alignment::Justify,
        }),
        top_margin: un(&v[1]),
        bottom_margin: un(&v[2]),
        left_margin: un(&v[3]),
        right_margin: un(&v[4]),
        heading_level: un(&v[5]),
        indent: un(&v[6]),
        text_indent: un(&v[7]),
        marker: unq(&v[8]).map(|s| match s {
            "NoMarker" => MarkerType::NoMarker,
            "Checked" => MarkerType::Checked,
            _ => MarkerType::Unchecked,
        }),
        line_height: un::<i64>(&v[9]).map(|x| x as f32 / 1000.0),
        non_breakable_lines: ub(&v[10]),
        direction: unq(&v[11]).map(|s| match s {
            "RightToLeft" => TextDirection::RightToLeft,
            _ => TextDirection::LeftToRight,
        }),
        background_color: unq(&v[12]).map(String::from),
        is_code_block: ub(&v[13]),
        code_language: unq(&v[14]).map(String::from),
        tab_positions: vec![],
    }
}
pub fn style_of(s: &str) -> ListStyle {
    match s {
        "Circle" => ListStyle::Circle,
        "Square" => ListStyle::Square,
        "Decimal" => ListStyle::Decimal,
        "LowerAlpha" => ListStyle::LowerAlpha,
        "UpperAlpha" => ListStyle::UpperAlpha,
        "LowerRoman" => ListStyle::LowerRoman,
        "UpperRoman" => ListStyle::UpperRoman,
        _ => ListStyle::Disc,
    }
}
/// One string per scalar value; anything but printable ASCII becomes "U+XXXX".
pub fn ch(c: char) -> String {
    if (' '..='~').contains(&c) { c.to_string() } else { format!("U+{:04X}", c as u32) }
}
pub fn chars(s: &str) -> Vec<String> {
    s.chars().map(ch).collect()
}
pub fn unch(s: &str) -> char {
    let mut it = s.chars();
    let a = it.next().unwrap_or(' ');
    if it.next().is_none() {
        return a;
    }
    char::from_u32(u32::from_str_radix(&s[2..], 16).unwrap()).unwrap()
}
pub fn unchars(v: &Value) -> String {
    v.as_array().map(|a| a.iter().map(|x| unch(x.as_str().unwrap())).collect()).unwrap_or_default()
}

/// Per-character formats from the fragment list (images contribute one entry with char U+FFFC).
pub fn frag_chars(fs: &[FragmentContent], ft: &mut Fmts) -> (Vec<String>, Vec<usize>) {
    let (mut t, mut f) = (vec![], vec![]);
    for x in fs {
        match x {
            FragmentContent::Text { text, format, .. } => {
                let i = ft.idx(fmt_vec(format));
                for c in text.chars() {
                    t.push(ch(c));
                    f.push(i);
                }
            }
            FragmentContent::Image { name, width, height, format, .. } => {
                let i = ft.idx(img_vec(format, name, *width, *height));
                t.push("U+FFFC".into());
                f.push(i);
            }
        }
    }
    (t, f)
}
pub fn block_json(b: &TextBlock, ft: &mut Fmts) -> Value {
    let text = b.text();
    let (_, f) = frag_chars(&crate::hl::stored(b.fragments()), ft);
    let l = b.list().map(|l| l.id() as i64).unwrap_or(-1);
    json!({"i": b.id(), "t": chars(&text), "f": f, "b": bf_vec(&b.block_format()),
        "l": l, "x": b.list_item_index().map(|x| x as i64).unwrap_or(-1),
        "p": b.position(), "n": b.block_number()})
}
pub fn list_json(l: &TextList) -> Value {
    let n = l.count();
    json!({"i": l.id(), "y": format!("{:?}", l.style()), "d": l.indent(), "pre": chars(&l.prefix()), "suf": chars(&l.suffix()),
        "n": n, "it": (0..n + 1).filter_map(|k| l.item(k).map(|b| b.id())).collect::<Vec<_>>(),
        "mk": (0..n).map(|k| chars(&l.item_marker(k))).collect::<Vec<_>>()})
}
pub fn flow_json(fl: &[FlowElement]) -> Value {
    json!(
        fl.iter()
            .map(|e| match e {
                FlowElement::Block(b) => json!(["b", b.id()]),
                FlowElement::Table(t) => json!(["t", t.id()]),
                FlowElement::Frame(f) => json!(["f", f.id()]),
            })
            .collect::<Vec<_>>()
    )
}
pub fn ev_json(e: &DocumentEvent) -> Value {
    match e {
        DocumentEvent::ContentsChanged { position, chars_removed, chars_added, blocks_affected } => {
            json!({"e":"CC","p":position,"r":chars_removed,"a":chars_added,"b":blocks_affected})
        }
        DocumentEvent::FormatChanged { position, length, kind } => {
            json!({"e":"FC","p":position,"n":length,"k":format!("{kind:?}")})
        }
        DocumentEvent::BlockCountChanged(n) => json!({"e":"BC","n":n}),
        DocumentEvent::FlowElementsInserted { flow_index, count } => json!({"e":"FI","p":flow_index,"n":count}),
        DocumentEvent::FlowElementsRemoved { flow_index, count } => json!({"e":"FR","p":flow_index,"n":count}),
        DocumentEvent::DocumentReset => json!({"e":"RS"}),
        DocumentEvent::UndoRedoChanged { can_undo, can_redo } => json!({"e":"UR","u":can_undo,"r":can_redo}),
        DocumentEvent::ModificationChanged(b) => json!({"e":"MC","m":b}),
        DocumentEvent::LongOperationProgress { .. } => json!({"e":"LP"}),
        DocumentEvent::LongOperationFinished { success, .. } => json!({"e":"LF","s":success}),
    }
}
pub fn table_json(t: &TextTable, ft: &mut Fmts) -> Value {
    let (r, c) = (t.rows(), t.columns());
    let mut seen: Vec<usize> = vec![];
    let mut cells = vec![];
    let mut lk = vec![];
    for i in 0..r {
        let mut row = vec![];
        for j in 0..c {
            match t.cell(i, j) {
                None => row.push(-1i64),
                Some(cell) => {
                    row.push(cell.id() as i64);
                    if !seen.contains(&cell.id()) {
                        seen.push(cell.id());
                        let f = cell.format();
                        cells.push(json!({"i":cell.id(),"r":cell.row(),"c":cell.column(),"rs":cell.row_span(),"cs":cell.column_span(),
                            "g":[o(&f.padding),o(&f.border),o(&f.vertical_alignment),os(&f.background_color)],
                            "B":cell.blocks().iter().map(|b| { let tx=b.text(); let (_,fv)=frag_chars(&b.fragments(),ft);
                                let tc=b.table_cell();
                                json!({"i":b.id(),"t":chars(&tx),"f":fv,"b":bf_vec(&b.block_format()),"l":b.list().map(|l|l.id() as i64).unwrap_or(-1),
                                  "tc":tc.map(|x| json!([x.table.id() as i64,x.row as i64,x.column as i64])).unwrap_or(json!([-1,-1,-1]))})}).collect::<Vec<_>>()}));
                    }
                }
            }
        }
        lk.push(row);
    }
    let f = t.format();
    let s = t.snapshot();
    json!({"i":t.id(),"r":r,"c":c,"g":[o(&f.border),o(&f.cell_spacing),o(&f.cell_padding),o(&f.width),o(&f.alignment)],"w":t.column_widths(),
        "cells":cells,"lk":lk,
        "sn":{"r":s.rows,"c":s.columns,"cells":s.cells.iter().map(|x| json!({"r":x.row,"c":x.column,"rs":x.row_span,"cs":x.column_span,
            "t":x.blocks.iter().map(|b| chars(&b.text)).collect::<Vec<_>>()})).collect::<Vec<_>>()}})
}
