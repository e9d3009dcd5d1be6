//! Every read view of a document, for the agreement property.
use crate::proj::*;
use serde_json::{Value, json};
use text_document::*;

pub fn views(d: &TextDocument, ft: &mut Fmts) -> Value {
    let blocks = d.blocks();
    let lens: Vec<usize> = blocks.iter().map(|b| b.text().chars().count()).collect();
    let max: usize = lens.iter().sum::<usize>() + lens.len().saturating_sub(1);
    let s = d.stats();
    let id = |b: Option<TextBlock>| b.map(|b| b.id() as i64).unwrap_or(-1);
    let mut nx = vec![];
    let mut fr = vec![];
    let mut sn = vec![];
    for (k, b) in blocks.iter().enumerate() {
        nx.push(json!([id(b.next()), id(b.previous()), b.is_valid(), b.is_empty(), b.length(), id(d.block_by_id(b.id())),
            id(d.block_by_number(k)), b.position(), b.block_number()]));
        let f = b.fragments();
        fr.push(json!(
            f.iter()
                .map(|x| match x {
                    FragmentContent::Text { text, format, offset, length, word_starts, .. } =>
                        json!([offset, length, chars(text), ft.idx(fmt_vec(format)), word_starts.len()]),
                    FragmentContent::Image { offset, format, name, width, height, .. } =>
                        json!([offset, 1, ["U+FFFC"], ft.idx(img_vec(format, name, *width, *height)), 0]),
                })
                .collect::<Vec<_>>()
        ));
        let x = b.snapshot();
        let cf: Vec<i64> = (0..=lens[k]).map(|o| b.char_format_at(o).map(|f| ft.idx(fmt_vec(&f)) as i64).unwrap_or(-1)).collect();
        sn.push(json!({"i": x.block_id, "p": x.position, "n": x.length, "t": chars(&x.text), "f": x.fragments == f,
            "b": bf_vec(&x.block_format), "l": x.list_info.as_ref().map(|l| l.list_id as i64).unwrap_or(-1),
            "mk": chars(&x.list_info.as_ref().map(|l| l.marker.clone()).unwrap_or_default()), "cf": cf}));
    }
    let fs: Vec<Value> = d
        .snapshot_flow()
        .elements
        .iter()
        .map(|e| match e {
            FlowElementSnapshot::Block(b) => json!(["b", b.block_id, b.position, b.length, chars(&b.text), bf_vec(&b.block_format)]),
            FlowElementSnapshot::Table(t) => json!(["t", t.table_id]),
            FlowElementSnapshot::Frame(f) => json!(["f", f.frame_id]),
        })
        .collect();
    let mut at = vec![];
    let mut ca = vec![];
    for p in 0..=max + 2 {
        let ba = match d.block_at(p) {
            Ok(b) => json!([b.block_id, b.block_number, b.start, b.length]),
            Err(_) => json!([-1]),
        };
        let bf = match d.block_format_at(p) {
            Ok(f) => bf_vec(&f),
            Err(_) => vec![],
        };
        let fe = match d.find_element_at_position(p) {
            Some((_, a, o)) => json!([a, o]),
            None => json!([]),
        };
        let sb = d.snapshot_block_at_position(p).map(|b| json!([b.block_id, b.position, b.length, chars(&b.text)])).unwrap_or(json!([-1, -1, -1, []]));
        let ta: Vec<Value> = [0usize, 1, 3, max + 5]
            .iter()
            .map(|k| match d.text_at(p, *k) {
                Ok(t) => json!([k, "ok", chars(&t)]),
                Err(_) => json!([k, "err", []]),
            })
            .collect();
        let br: Vec<Value> = [0usize, 1, 4]
            .iter()
            .map(|k| json!([k, d.blocks_in_range(p, *k).iter().map(|b| b.id()).collect::<Vec<_>>()]))
            .collect();
        at.push(json!({"ba": ba, "bap": id(d.block_at_position(p)), "bf": bf, "fe": fe, "sb": sb, "ta": ta, "br": br}));
        if p <= max {
            let c = d.cursor_at(p);
            let cf = c.char_format().map(|f| ft.idx(fmt_vec(&f)) as i64).unwrap_or(-1);
            let bf = c.block_format().map(|f| bf_vec(&f)).unwrap_or_default();
            ca.push(json!({"p": c.position(), "bn": c.block_number(), "pb": c.position_in_block(), "bs": c.at_block_start(),
                "be": c.at_block_end(), "s": c.at_start(), "e": c.at_end(), "cf": cf, "bf": bf,
                "cl": c.current_list().map(|l| l.id() as i64).unwrap_or(-1)}));
        }
    }
    json!({
        "pt": d.to_plain_text().map(|t| chars(&t)).unwrap_or_default(),
        "st": [s.character_count, s.word_count, s.block_count, s.frame_count, s.image_count, s.list_count, s.table_count],
        "em": d.is_empty(), "nx": nx, "fr": fr, "sn": sn, "fs": fs, "at": at, "ca": ca,
        "ws": blocks.iter().map(|b| b.text().split_whitespace().count()).collect::<Vec<_>>(),
        "bad": [id(d.block_by_id(999_999)), id(d.block_by_number(blocks.len()))],
    })
}
