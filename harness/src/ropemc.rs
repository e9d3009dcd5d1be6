//! Replays the operations of Rope.tla into the real rope helpers and compares rope, index and every lookup.
use crate::ops::us;
use crate::proj::unchars;
use common::database::Store;
use common::database::block_offset_index::OffsetMarker;
use common::database::rope_helpers::*;
use common::entities::Block;
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn apply(s: &Store, op: &Value) {
    let id = |k: &str| op[k].as_u64().unwrap_or(0);
    let u = |k: &str| op[k].as_u64().unwrap_or(0) as u32;
    let t = unchars(&op["t"]);
    match op["n"].as_str().unwrap() {
        "app" => {
            if !s.block_offsets.read().unwrap().is_empty() {
                rope_insert_block_boundary(s);
            }
            rope_append_block(s, id("i"), &t);
        }
        "appe" => {
            rope_append_empty_block(s, id("i"));
        }
        "appt" => rope_append_table_anchor(s, id("i")),
        "insat" => rope_insert_block_at(s, u("b"), id("i"), &t),
        "ins" => rope_insert_in_block(s, id("i"), u("o"), &t),
        "del" => rope_delete_in_block(s, id("i"), u("a"), u("b")),
        "split" => rope_split_block(s, id("i"), u("o"), id("w")),
        "merge" => rope_merge_block_range(s, id("i"), u("a"), id("e"), u("b")),
        "repl" => rope_replace_block_content(s, id("i"), &t),
        "rem" => rope_remove_block(s, id("i")),
        "anchor" => rope_insert_table_anchor(s, id("i"), id("b"), op["after"].as_bool().unwrap()),
        "unanchor" => rope_remove_table_anchor(s, id("i")),
        "reset" => rope_reset(s),
        x => panic!("unknown op {x}"),
    }
}

/// What the real store shows, in the shape of the specification's View; first difference, if any.
fn differs(s: &Store, want: &Value) -> Option<String> {
    let n = want["ids"].as_array().unwrap().len();
    let mk = |j: usize| {
        let i = want["ids"][j].as_u64().unwrap();
        if want["kinds"][j] == "B" { OffsetMarker::Block(i) } else { OffsetMarker::TableAnchor(i) }
    };
    let st = |j: usize| want["starts"][j].as_u64().unwrap() as u32;
    let total = us(want, "total") as u32;
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Some(format!("{}: {:?} instead of {:?}", $what, $a, $b));
            }
        };
    }
    // Some lookups want the entities too.
    {
        let mut bl = s.blocks.write().unwrap();
        bl.clear();
        for j in 0..n {
            if want["kinds"][j] == "B" {
                let id = want["ids"][j].as_u64().unwrap();
                bl.insert(id, Block { id, ..Default::default() });
            }
        }
    }
    eq!("rope", s.rope.read().unwrap().to_string(), unchars(&want["rope"]));
    {
        let x = s.block_offsets.read().unwrap();
        eq!("length", x.len(), n);
        eq!("empty", x.is_empty(), n == 0);
        eq!("total", x.total_bytes(), total);
        eq!("tables", x.table_anchor_count(), (0..n).filter(|&j| want["kinds"][j] == "T").count());
        for j in 0..n {
            eq!("entry", x.entries[j], (mk(j), st(j)));
            let end = if j + 1 < n { st(j + 1) } else { total };
            eq!("range", x.range_of(mk(j)), Some((st(j), end)));
            eq!("range with successor", x.range_with_successor(mk(j)), Some((st(j), end, j + 1 < n)));
            eq!("position", x.position_of(mk(j)), Some(j));
        }
        for u in [OffsetMarker::Block(777), OffsetMarker::TableAnchor(777)] {
            eq!("range of nothing", x.range_of(u), None::<(u32, u32)>);
            eq!("position of nothing", x.position_of(u), None::<usize>);
        }
        // ids are shared by blocks and tables; the kind counts.
        for j in 0..n {
            let other = match mk(j) {
                OffsetMarker::Block(i) => OffsetMarker::TableAnchor(i),
                OffsetMarker::TableAnchor(i) => OffsetMarker::Block(i),
            };
            eq!("position of the other kind", x.position_of(other), None::<usize>);
        }
        for (b, j) in want["at"].as_array().unwrap().iter().enumerate() {
            let j = j.as_u64().unwrap() as usize;
            let b = b as u32;
            let m = if j == 0 { None } else { Some(mk(j - 1)) };
            eq!(format!("marker at byte {b}"), x.marker_at_byte(b), m);
            eq!(format!("block at byte {b}"), x.block_at_byte(b), m.and_then(|m| m.as_block()));
            eq!(format!("byte in marker {b}"), x.byte_to_marker_byte(b), m.map(|m| (m, b - st(j - 1))));
            eq!(format!("byte in block {b}"), x.byte_to_block_byte(b), m.and_then(|m| m.as_block()).map(|i| (i, b - st(j - 1))));
        }
    }
    let tables = (0..n).any(|j| want["kinds"][j] == "T");
    eq!("positions match", rope_positions_match_flow(s), !tables);
    for j in 0..n {
        if want["kinds"][j] != "B" {
            continue;
        }
        let id = want["ids"][j].as_u64().unwrap();
        let text = unchars(&want["texts"][j]);
        let b = Block { id, ..Default::default() };
        eq!("content", block_content_via_store(&b, s), text);
        eq!("content length", block_char_length(&b, s), text.chars().count() as i64);
        eq!("block position", block_document_position(&b, s), want["chars"][j].as_i64().unwrap());
        for (c, x) in want["cb"][j].as_array().unwrap().iter().enumerate() {
            eq!("char to byte", block_char_to_byte_in_block(s, id, c), (x.as_u64().unwrap() as u32, text.len()));
        }
    }
    let flat = rope_flat_text_if_simple(s, 1);
    eq!("flat text", flat, if tables { None } else { Some(unchars(&want["rope"])) });
    let find = want["find"].as_array().unwrap();
    for (p, x) in find.iter().enumerate() {
        let w = (x[0].as_u64().unwrap(), x[1].as_i64().unwrap(), x[2].as_i64().unwrap());
        eq!(format!("block at position {p}"), find_block_at_char_position(s, p as i64), Some(w));
    }
    if let Some(x) = find.first() {
        let w = (x[0].as_u64().unwrap(), x[1].as_i64().unwrap(), x[2].as_i64().unwrap());
        eq!("block at a negative position", find_block_at_char_position(s, -3), Some(w));
    } else if tables {
        eq!("block at position with tables", find_block_at_char_position(s, 0), None::<(u64, i64, i64)>);
    }
    None
}

fn one(raw: &str) -> Option<(String, Value)> {
    let c: Value = serde_json::from_str(raw).unwrap();
    let path = c["path"].as_array().unwrap();
    let last = path.last().unwrap().clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let s = Store::new();
        for op in &path[..path.len() - 1] {
            apply(&s, op);
        }
        if let Some(d) = differs(&s, &c["pre"]) {
            return Some(format!("before: {d}"));
        }
        let sp = s.create_savepoint();
        let frozen = s.snapshot();
        apply(&s, &last);
        if let Some(d) = differs(&s, &c["post"]) {
            return Some(d);
        }
        // What was saved before the operation is still what it was.
        s.restore_savepoint(sp);
        if let Some(d) = differs(&s, &c["pre"]) {
            return Some(format!("savepoint: {d}"));
        }
        s.restore_without_counters(&frozen);
        differs(&s, &c["pre"]).map(|d| format!("snapshot: {d}"))
    }));
    match r {
        Ok(None) => None,
        Ok(Some(d)) => Some((d, last)),
        Err(_) => Some(("panic".into(), last)),
    }
}

pub fn run(input: &str, output: &str) {
    crate::cases(input, output, "ropemc", one);
}
