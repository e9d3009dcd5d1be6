//! Replays Runs.tla (`runsmc`) and Inline.tla (`inlinemc`) into the functions on format runs and image anchors.
use common::format_runs::*;
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn fmt(k: u64) -> CharacterFormat {
    match k {
        1 => CharacterFormat::default(),
        _ => CharacterFormat { font_bold: Some(true), ..Default::default() },
    }
}
fn list(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}
/// The runs a list of formats per byte stands for, cut additionally at `cuts`.
fn runs(v: &[u64], base: u32, cuts: &[u64]) -> Vec<FormatRun> {
    let mut out: Vec<FormatRun> = vec![];
    let mut prev = 0;
    for (k, &x) in v.iter().enumerate() {
        let at = base + k as u32;
        if x == 0 {
        } else if x == prev && !cuts.contains(&(k as u64)) {
            out.last_mut().unwrap().byte_end = at + 1;
        } else {
            out.push(FormatRun { byte_start: at, byte_end: at + 1, format: fmt(x) });
        }
        prev = x;
    }
    out
}
/// Back to one format per byte.
fn expand(r: &[FormatRun], n: usize) -> Option<Vec<u64>> {
    let mut v = vec![0; n];
    for x in r {
        if x.byte_start >= x.byte_end || x.byte_end as usize > n {
            return None;
        }
        for b in x.byte_start..x.byte_end {
            if v[b as usize] != 0 {
                return None;
            }
            v[b as usize] = if x.format == fmt(1) { 1 } else { 2 };
        }
    }
    Some(v)
}

fn runs_case(c: &Value) -> Option<String> {
    let op = &c["op"];
    let v = list(&c["pre"]);
    let r = runs(&v, 0, &[]);
    let want: Vec<Vec<u64>> = c["post"].as_array().unwrap().iter().map(list).collect();
    let w0 = runs(&want[0], 0, &[]);
    let u = |k: &str| op[k].as_u64().unwrap_or(0) as u32;
    macro_rules! eq {
        ($a:expr, $b:expr) => {
            if $a != $b {
                return Some(format!("{:?} instead of {:?}", $a, $b));
            }
        };
    }
    match op["n"].as_str().unwrap() {
        "ins" => {
            let mut x = r.clone();
            shift_runs_for_insert(&mut x, u("at"), u("k"));
            eq!(x, w0);
        }
        "del" => {
            let mut x = r.clone();
            shift_runs_for_delete(&mut x, u("a"), u("b"));
            eq!(x, w0);
            // and a reversed range is none at all
            if u("a") < u("b") {
                let mut x = r.clone();
                shift_runs_for_delete(&mut x, u("b"), u("a"));
                eq!(x, r);
            }
        }
        "splice" => {
            let w = list(&op["w"]);
            for cuts in [vec![], (0..9).collect::<Vec<u64>>()] {
                let mut x = r.clone();
                let saved = capture_runs_in_range(&x, u("a"), u("b"));
                splice_range(&mut x, u("a")..u("b"), runs(&w, u("a"), &cuts));
                eq!(x, w0);
                // what was captured before puts everything back
                splice_range(&mut x, u("a")..u("b"), saved);
                eq!(x, r);
            }
        }
        "split" => {
            let (a, b) = split_runs_at(&r, u("at"));
            eq!(a, w0);
            eq!(b, runs(&want[1], 0, &[]));
        }
        "capture" => eq!(capture_runs_in_range(&r, u("a"), u("b")), w0),
        "coalesce" => {
            let cuts: Vec<u64> = list(&op["cuts"]);
            let mut x = runs(&v, 0, &cuts);
            coalesce_in_place(&mut x);
            eq!(x, w0);
        }
        "shift" => {
            let mut x = r.clone();
            shift_after(&mut x, u("t"), op["d"].as_i64().unwrap() as i32);
            eq!(expand(&x, want[0].len()), Some(want[0].clone()));
        }
        x => panic!("unknown op {x}"),
    }
    debug_assert_well_formed(&r, v.len());
    None
}

struct Inline {
    text: String,
    runs: Vec<FormatRun>,
    images: Vec<ImageAnchor>,
}
fn build(items: &Value) -> Inline {
    let mut text = String::new();
    let mut per_byte = vec![];
    let mut images = vec![];
    for (k, x) in items.as_array().unwrap().iter().enumerate() {
        let f = x[1].as_u64().unwrap();
        let c = match x[0].as_str().unwrap() {
            "S" | "Z" => {
                images.push(ImageAnchor {
                    byte_offset: text.len() as u32,
                    name: format!("i{k}"),
                    width: 3,
                    height: 4,
                    quality: 5,
                    format: fmt(f),
                });
                if x[0] == "Z" {
                    continue;
                }
                '\u{FFFC}'
            }
            c => crate::proj::unch(c),
        };
        text.push(c);
        per_byte.resize(text.len(), f);
    }
    Inline { runs: runs(&per_byte, 0, &[]), text, images }
}
fn offsets(x: &[ImageAnchor]) -> Vec<u64> {
    x.iter().map(|i| i.byte_offset as u64).collect()
}

fn inline_case(c: &Value) -> Option<String> {
    let op = &c["op"];
    let x = build(&c["pre"]);
    let post = &c["post"];
    let u = |k: &str| op[k].as_u64().unwrap_or(0) as u32;
    macro_rules! eq {
        ($a:expr, $b:expr) => {
            if $a != $b {
                return Some(format!("{:?} instead of {:?}", $a, $b));
            }
        };
    }
    match op["n"].as_str().unwrap() {
        "ins" => {
            let mut i = x.images.clone();
            shift_images_for_insert(&mut i, u("at"), u("k"));
            eq!(offsets(&i), list(&post[0]));
        }
        "del" => {
            let mut i = x.images.clone();
            let n = shift_images_for_delete(&mut i, u("a"), u("b"));
            eq!(offsets(&i), list(&post[0]));
            eq!(n as u64, post[1][0].as_u64().unwrap());
        }
        "split" => {
            let (a, b) = split_images_at(&x.images, u("at"));
            eq!(offsets(&a), list(&post[0]));
            eq!(offsets(&b), list(&post[1]));
            let mut names: Vec<_> = a.iter().chain(&b).map(|i| i.name.clone()).collect();
            names.sort();
            eq!(names, x.images.iter().map(|i| i.name.clone()).collect::<Vec<_>>());
        }
        "capture" => {
            let g = capture_image_formats_in_range(&x.images, u("a"), u("b"));
            let w: Vec<_> = list(&post[0]).iter().zip(list(&post[1])).map(|(o, f)| (*o as u32, fmt(f))).collect();
            eq!(g, w);
        }
        "view" => {
            let items = c["pre"].as_array().unwrap();
            let starts = list(&post[0]);
            for k in -2..starts.len() as i64 + 2 {
                let w = starts[(k.max(0) as usize).min(starts.len() - 1)];
                eq!((k, logical_offset_to_byte(&x.text, &x.images, k) as u64), (k, w));
            }
            eq!(
                x.text.chars().count() as i64 + extra_image_chars(&x.text, &x.images),
                items.len() as i64
            );
            let mut j = 0;
            for it in items {
                if it[0] == "S" || it[0] == "Z" {
                    eq!(image_sentinel_len(&x.text, &x.images, j), if it[0] == "S" { 3 } else { 0 });
                    j += 1;
                }
            }
            // the segments, one item at a time
            let mut got = vec![];
            let seg = inline_segments_view(&x.text, &x.runs, &x.images);
            for s in &seg {
                let f = character_format_from_segment(s);
                match &s.content {
                    InlineContent::Text(t) => {
                        if t.is_empty() {
                            return Some("empty segment".into());
                        }
                        got.extend(t.chars().map(|c| (c.to_string(), f.clone())));
                    }
                    InlineContent::Image { name, width: 3, height: 4, quality: 5 } => got.push((name.clone(), f)),
                    z => return Some(format!("segment {z:?}")),
                }
            }
            let want: Vec<_> = items
                .iter()
                .enumerate()
                .map(|(k, it)| {
                    let f = fmt(it[1].as_u64().unwrap().max(1));
                    match it[0].as_str().unwrap() {
                        "S" | "Z" => (format!("i{k}"), f),
                        c => (crate::proj::unch(c).to_string(), f),
                    }
                })
                .collect();
            eq!(got, want);
        }
        z => panic!("unknown op {z}"),
    }
    None
}

fn guard(raw: &str, f: fn(&Value) -> Option<String>) -> Option<(String, Value)> {
    let c: Value = serde_json::from_str(raw).unwrap();
    let last = json!({"pre": c["pre"], "op": c["op"]});
    match catch_unwind(AssertUnwindSafe(|| f(&c))) {
        Ok(r) => r.map(|d| (d, last)),
        Err(_) => Some(("panic".into(), last)),
    }
}
pub fn run(input: &str, output: &str) {
    crate::cases(input, output, "runsmc", |r| guard(r, runs_case));
}
pub fn run_inline(input: &str, output: &str) {
    crate::cases(input, output, "inlinemc", |r| guard(r, inline_case));
}
