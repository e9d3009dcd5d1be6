//! Replays Table.tla: builds the table with text in and around it, does the operation, compares.
use serde_json::{Value, json};
use std::cell::RefCell;
use text_document::*;

struct Fix {
    key: String,
    doc: TextDocument,
    t: usize,
    cur: Vec<(TextCursor, usize, usize)>, // parked cursors: block, offset
    ids: Vec<usize>,                      // cells of the model in order
    pre: Option<(Vec<CellView>, Vec<(usize, String)>)>,
    edits: TextCursor,
}
type CellView = (usize, [usize; 4], Vec<(usize, String)>);

fn table(doc: &TextDocument) -> std::result::Result<TextTable, String> {
    let mut v: Vec<TextTable> =
        doc.flow().into_iter().filter_map(|e| if let FlowElement::Table(t) = e { Some(t) } else { None }).collect();
    if v.len() != 1 { Err(format!("{} tables", v.len())) } else { Ok(v.remove(0)) }
}
fn cells(t: &TextTable) -> std::result::Result<Vec<CellView>, String> {
    let mut out: Vec<CellView> = vec![];
    for i in 0..t.rows() {
        for j in 0..t.columns() {
            if let Some(c) = t.cell(i, j) {
                let v: CellView = (
                    c.id(),
                    [c.row(), c.column(), c.row_span(), c.column_span()],
                    c.blocks().iter().map(|b| (b.id(), b.text())).collect(),
                );
                if v.1[0] != i || v.1[1] != j { return Err(format!("cell({i},{j}) starts at {:?}", v.1)); }
                out.push(v);
            }
        }
    }
    let mut covered = vec![vec![0; t.columns()]; t.rows()];
    for (_, r, _) in &out {
        for i in r[0]..r[0] + r[2] {
            for j in r[1]..r[1] + r[3] {
                match covered.get_mut(i).and_then(|x| x.get_mut(j)) { Some(x) => *x += 1, None => return Err("cell leaves the table".into()) }
            }
        }
    }
    if covered.iter().flatten().any(|&x| x != 1) { return Err(format!("coverage {covered:?}")); }
    if t.column_widths().len() != t.columns() { return Err("column widths".into()); }
    Ok(out)
}
/// Everything but the table itself: blocks around it, and that positions and counts agree.
fn rest(doc: &TextDocument) -> std::result::Result<Vec<(usize, String)>, String> {
    let t = table(doc)?;
    let inside: Vec<(usize, String)> = cells(&t)?.into_iter().flat_map(|c| c.2).collect();
    let mut want = vec![];
    let mut out = vec![];
    for e in doc.flow() {
        match e {
            FlowElement::Block(b) => { want.push((b.id(), b.text())); out.push((b.id(), b.text())); }
            FlowElement::Table(_) => want.extend(inside.clone()),
            _ => return Err("frame".into()),
        }
    }
    let blocks = doc.blocks();
    let got: Vec<(usize, String)> = blocks.iter().map(|b| (b.id(), b.text())).collect();
    if got != want { return Err(format!("document order {got:?} instead of {want:?}")); }
    let mut p = 0;
    for b in &blocks {
        if b.position() != p { return Err(format!("block {} at {} instead of {p}", b.text(), b.position())); }
        p += b.length() + 1;
    }
    let chars: usize = got.iter().map(|x| x.1.chars().count()).sum();
    if (doc.block_count(), doc.character_count()) != (got.len(), chars) {
        return Err(format!("counts {:?} instead of {:?}", (doc.block_count(), doc.character_count()), (got.len(), chars)));
    }
    let s = t.snapshot();
    let mut sn: Vec<([usize; 4], Vec<String>)> =
        s.cells.iter().map(|x| ([x.row, x.column, x.row_span, x.column_span], x.blocks.iter().map(|b| b.text.clone()).collect())).collect();
    let cs: Vec<([usize; 4], Vec<String>)> = cells(&t)?.into_iter().map(|x| (x.1, x.2.into_iter().map(|b| b.1).collect())).collect();
    sn.sort();
    if sn != cs || (s.rows, s.columns) != (t.rows(), t.columns()) { return Err(format!("snapshot {sn:?}")); }
    for c in t.snapshot().cells.iter() {
        for b in &c.blocks {
            let r = blocks.iter().find(|x| x.id() == b.block_id).and_then(|x| x.table_cell()).map(|x| (x.table.id(), x.row, x.column));
            if r != Some((t.id(), c.row, c.column)) { return Err(format!("cell of block {}: {r:?}", b.text)); }
        }
    }
    // The snapshot of the whole document says the same, with the same positions.
    let mut at = vec![];
    for e in doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => at.push((b.block_id, b.position)),
            FlowElementSnapshot::Table(t) => at.extend(t.cells.iter().flat_map(|c| &c.blocks).map(|b| (b.block_id, b.position))),
            _ => return Err("frame in the snapshot".into()),
        }
    }
    if at != blocks.iter().map(|b| (b.id(), b.position())).collect::<Vec<_>>() { return Err(format!("flow snapshot {at:?}")); }
    Ok(out)
}
fn u(v: &Value) -> usize { v.as_u64().unwrap() as usize }
fn rect(x: &Value) -> [usize; 4] { [u(&x["r"]), u(&x["c"]), u(&x["rs"]), u(&x["cs"])] }

fn build(c: &Value) -> std::result::Result<Fix, String> {
    let e = |x: anyhow::Error| x.to_string();
    let doc = TextDocument::new();
    doc.set_plain_text("before\nmid\nafter").map_err(e)?;
    let cur = doc.cursor_at(8);
    let t = cur.insert_table(u(&c["rows"]), u(&c["cols"])).map_err(e)?;
    let model: Vec<[usize; 4]> = c["cells"].as_array().unwrap().iter().map(rect).collect();
    for m in model.iter().filter(|m| m[2] > 1 || m[3] > 1) {
        cur.merge_table_cells(t.id(), m[0], m[1], m[0] + m[2] - 1, m[1] + m[3] - 1).map_err(e)?;
    }
    let mut ids = vec![];
    for (k, m) in model.iter().enumerate() {
        let cell = t.cell(m[0], m[1]).ok_or("cell not found")?;
        ids.push(cell.id());
        cur.set_position(cell.blocks()[0].position(), MoveMode::MoveAnchor);
        if k % 3 != 2 {
            cur.insert_text(&"x\u{e9}y\u{1F600}".chars().cycle().skip(k).take(k % 5).collect::<String>()).map_err(e)?;
        }
        if k % 3 == 0 {
            cur.insert_block().map_err(e)?;
            cur.insert_text("z").map_err(e)?;
        }
    }
    let mut parked = vec![];
    for b in doc.blocks() {
        let off = b.length() / 2;
        parked.push((doc.cursor_at(b.position() + off), b.id(), off));
    }
    Ok(Fix { key: String::new(), edits: cur, t: t.id(), doc, cur: parked, ids, pre: None })
}
fn check(fx: &mut Fix, c: &Value) -> Option<String> {
    macro_rules! tri { ($x:expr, $w:expr) => { match $x { Ok(v) => v, Err(e) => return Some(format!("{}: {e}", $w)) } }; }
    let (op, t) = (&c["op"], fx.t);
    for (cur, id, off) in &fx.cur {
        let b = fx.doc.block_by_id(*id)?;
        cur.set_position(b.position() + off, MoveMode::MoveAnchor);
    }
    // The first time; afterwards each undo is checked to lead back to it.
    if fx.pre.is_none() {
        let t = tri!(table(&fx.doc), "before");
        fx.pre = Some((tri!(cells(&t), "before"), tri!(rest(&fx.doc), "before")));
    }
    let (pre, pre_rest) = fx.pre.clone().unwrap();
    let want = c["post"].as_array().unwrap().first();
    fx.doc.poll_events();
    let n = |k: &str| u(&op[k]);
    let e = &fx.edits;
    let r = match op["n"].as_str().unwrap() {
        "irow" => e.insert_table_row(t, n("i")),
        "icol" => e.insert_table_column(t, n("i")),
        "drow" => e.remove_table_row(t, n("i")),
        "dcol" => e.remove_table_column(t, n("i")),
        "mcell" => e.merge_table_cells(t, n("r1"), n("c1"), n("r2"), n("c2")),
        _ => e.split_table_cell(fx.ids[n("j") - 1], n("r"), n("k")),
    };
    if r.is_ok() != want.is_some() {
        return Some(format!("accepted: {}", r.is_ok()));
    }
    let post_t = tri!(table(&fx.doc), "after");
    let post = tri!(cells(&post_t), "after");
    let post_rest = tri!(rest(&fx.doc), "after");
    if post_rest != pre_rest {
        return Some(format!("text around the table became {post_rest:?}"));
    }
    let Some(want) = want else {
        if post != pre { return Some(format!("rejected, but the table is {post:?}")); }
        return None;
    };
    if (post_t.rows(), post_t.columns()) != (u(&want["rows"]), u(&want["cols"])) {
        return Some(format!("size {}x{}", post_t.rows(), post_t.columns()));
    }
    let wc = want["cells"].as_array().unwrap();
    if wc.len() != post.len() { return Some(format!("{} cells", post.len())); }
    for (w, p) in wc.iter().zip(&post) {
        if rect(w) != p.1 { return Some(format!("cell {:?} instead of {:?}", p.1, rect(w))); }
        match u(&w["k"]) {
            0 => {
                if pre.iter().any(|x| x.0 == p.0) || p.2.len() != 1 || !p.2[0].1.is_empty() {
                    return Some(format!("not an empty new cell: {p:?}"));
                }
            }
            k => {
                let o = pre.iter().find(|x| x.0 == fx.ids[k - 1]).unwrap();
                if (p.0, &p.2) != (o.0, &o.2) { return Some(format!("cell {k} is {p:?}, was {o:?}")); }
            }
        }
    }
    // Cursors stay where they are in their block.
    for (cur, id, off) in &fx.cur {
        if let Some(b) = fx.doc.block_by_id(*id) {
            if cur.position() != b.position() + off { return Some(format!("cursor at {} instead of {}", cur.position(), b.position() + off)); }
        }
    }
    // Replaying the event on the old text's length gives the new length.
    let len = |v: &[CellView], r: &[(usize, String)]| -> i64 {
        v.iter().flat_map(|c| &c.2).chain(r).map(|b| b.1.chars().count() as i64 + 1).sum()
    };
    let mut diff = len(&post, &post_rest) - len(&pre, &pre_rest);
    for ev in fx.doc.poll_events() {
        if let DocumentEvent::ContentsChanged { chars_removed, chars_added, .. } = ev {
            diff -= chars_added as i64 - chars_removed as i64;
        }
    }
    if diff != 0 { return Some(format!("events miss {diff} characters")); }
    if fx.doc.undo().is_err() { return Some("undo fails".into()); }
    let back = tri!(cells(&tri!(table(&fx.doc), "undone")), "undone");
    if back != pre { return Some(format!("after undo {back:?}")); }
    if tri!(rest(&fx.doc), "undone") != pre_rest { return Some("text around after undo".into()); }
    if fx.doc.redo().is_err() { return Some("redo fails".into()); }
    let again = tri!(cells(&tri!(table(&fx.doc), "redone")), "redone");
    if again != post { return Some(format!("after redo {again:?} instead of {post:?}")); }
    if tri!(rest(&fx.doc), "redone") != pre_rest { return Some("text around after redo".into()); }
    if fx.doc.undo().is_err() { return Some("second undo fails".into()); }
    let back = tri!(cells(&tri!(table(&fx.doc), "undone twice")), "undone twice");
    if back != pre { return Some(format!("after second undo {back:?}")); }
    None
}
thread_local!(static FIX: RefCell<Option<Fix>> = const { RefCell::new(None) });

/// One transition; a table is used again for the next one if that starts from the same.
pub fn case(raw: &str) -> Option<(String, Value)> {
    let c: Value = serde_json::from_str(raw).unwrap();
    let key = format!("{}{}{}", c["rows"], c["cols"], c["cells"]);
    let run = |c: &Value| {
        FIX.with(|f| {
            let mut f = f.borrow_mut();
            if f.as_ref().is_none_or(|x| x.key != key) {
                *f = None;
                match build(c) {
                    Ok(mut x) => { x.key = key.clone(); *f = Some(x) }
                    Err(e) => return Some(format!("building: {e}")),
                }
            }
            let r = check(f.as_mut().unwrap(), c);
            if r.is_some() { *f = None; }
            r
        })
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&c))) {
        Ok(None) => None,
        Ok(Some(t)) => Some((t, json!({}))),
        Err(_) => { FIX.with(|f| f.replace(None).map(std::mem::forget)); Some(("panic".into(), json!({}))) }
    }
}
