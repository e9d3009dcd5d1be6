//! Random and scripted drivers; both log through the same path.
use crate::ops::*;
use crate::proj::*;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::io::Write;
use std::time::Instant;

pub struct Log {
    pub out: std::io::BufWriter<std::fs::File>,
    pub ft: Fmts,
    pub path: String,
    pub kept: usize,
}
impl Log {
    pub fn new(path: &str) -> Self {
        let mut ft = Fmts::default();
        ft.idx(vec!["-".to_string(); 14]);
        Log { out: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), ft, path: path.into(), kept: 0 }
    }
    pub fn finish(mut self) {
        self.out.flush().unwrap();
        let mut f = std::fs::File::create(format!("{}.fmt", self.path)).unwrap();
        for v in &self.ft.list {
            writeln!(f, "{}", serde_json::to_string(v).unwrap()).unwrap();
        }
    }
}

pub struct Trace {
    pub id: usize,
    pub s: Sess,
    pub lines: Vec<String>,
    pub last: Value,
    seg: Instant,
}
impl Trace {
    pub fn new(id: usize, text: &str, tables: bool, log: &mut Log) -> Self {
        let mut s = Sess::new(text);
        s.tables = tables;
        let st = s.state(&mut log.ft);
        let l = json!({"tr": id, "op": {"n":"start","s":chars(text),"tab":tables}, "res": {"k":"ok","v":0}, "st": st});
        Trace { id, s, lines: vec![l.to_string()], last: l["st"].clone(), seg: Instant::now() }
    }
    /// Applies and logs one operation, with the milliseconds between which the call ran.
    pub fn step(&mut self, mut op: Value, log: &mut Log) -> Value {
        self.s.enrich(&mut op);
        let t1 = self.seg.elapsed().as_millis() as u64;
        let res = self.s.apply(&op, &mut log.ft);
        let t2 = self.seg.elapsed().as_millis() as u64 + 1;
        let mut res = res;
        let mut st = self.last.clone();
        if res["k"] != "panic" {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.s.state(&mut log.ft))) {
                Ok(x) => st = x,
                Err(_) => res = json!({"k":"panic","v":"reading the state"}),
            }
        }
        let panicked = res["k"] == "panic";
        let l = json!({"tr": self.id, "op": op, "res": res, "st": st, "w": [t1, t2]});
        self.lines.push(l.to_string());
        self.last = l["st"].clone();
        if panicked {
            self.s.doc = text_document::TextDocument::new(); // the old one may be poisoned
        }
        l["res"].clone()
    }
    pub fn end(self, log: &mut Log) {
        for l in &self.lines {
            log.out.write_all(l.as_bytes()).unwrap();
            log.out.write_all(b"\n").unwrap();
        }
        log.kept += 1;
    }
}

const POOL: [&str; 31] = [
    "\u{130}", "\u{3a3}",
    "a", "b", "c", "X", " ", " ", ".", ",", "_", "1", "\u{e9}", "\u{df}", "\u{65e5}", "\u{672c}", "\u{1F600}", "e\u{301}",
    "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}", "\u{1F469}\u{1F3FD}\u{200D}\u{2764}\u{FE0F}\u{200D}\u{1F48B}\u{200D}\u{1F468}\u{1F3FD}",
    "e\u{301}\u{302}\u{303}\u{304}\u{306}\u{307}\u{308}\u{30a}\u{30b}\u{30c}\u{311}\u{323}\u{324}\u{325}\u{326}\u{327}\u{328}\u{32d}", "\u{1F1E9}\u{1F1EA}\u{1F1EB}\u{1F1F7}\u{1F1EF}\u{1F1F5}\u{1F1E7}\u{1F1EA}\u{1F1EA}\u{1F1F8}",
    "\u{1F1EB}\u{1F1F7}", "\u{5d0}", "-", "(", "a", "b", "'", "\t", "\u{1F44D}\u{1F3FD}",
];
const PLAIN: [&str; 10] = ["a", "b", "c", "d", "E", " ", ".", "1", "\u{e9}", "\u{1F600}"];
pub fn rtext(r: &mut Rng, max: usize, plain: bool) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| if plain { *r.pick(&PLAIN) } else { *r.pick(&POOL) }).collect()
}
pub fn rdoc(r: &mut Rng, plain: bool) -> String {
    let n = 1 + r.below(4);
    (0..n)
        .map(|_| if r.chance(20) { String::new() } else { rtext(r, 8, plain) })
        .collect::<Vec<_>>()
        .join("\n")
}
pub fn rdelta(r: &mut Rng) -> Vec<String> {
    let mut v = vec!["-".to_string(); 13];
    let k = 1 + r.below(3);
    for _ in 0..k {
        match r.below(12) {
            0 => v[0] = format!("={}", r.pick(&["Serif", "Mono", ""])),
            1 => v[1] = format!("={}", r.pick(&[8, 12, 20])),
            2 => v[2] = format!("={}", r.pick(&[100, 700])),
            3 | 4 => v[3] = format!("={}", r.chance(70)),
            5 => v[4] = format!("={}", r.chance(70)),
            6 => v[5] = format!("={}", r.chance(70)),
            7 => v[6] = format!("={}", r.chance(70)),
            8 => v[7] = format!("={}", r.chance(70)),
            9 => v[8] = format!("={}", r.pick(&[1, 2])),
            10 => v[9] = format!("={}", r.pick(&[1, 2])),
            _ => {
                if r.chance(50) {
                    v[10] = format!("={}", r.pick(&["SingleUnderline", "WaveUnderline", "DotLine"]))
                } else {
                    v[11] = format!("={}", r.pick(&["SuperScript", "SubScript", "Normal"]))
                }
            }
        }
    }
    v
}
pub fn rbdelta(r: &mut Rng) -> Vec<String> {
    let mut v = vec!["-".to_string(); 16];
    let k = 1 + r.below(3);
    for _ in 0..k {
        match r.below(15) {
            0 => v[0] = format!("={}", r.pick(&["Left", "Right", "Center", "Justify"])),
            k @ 1..=4 => v[k] = format!("={}", r.pick(&[0, 5, 9])),
            5 => v[5] = format!("={}", r.below(7)),
            6 => v[6] = format!("={}", r.below(4)),
            7 => v[7] = format!("={}", r.pick(&[0, 3, -2])),
            8 => v[8] = format!("={}", r.pick(&["NoMarker", "Checked", "Unchecked"])),
            9 => v[9] = format!("={}", r.pick(&[1000, 1500, 2000])),
            10 => v[10] = format!("={}", r.chance(50)),
            11 => v[11] = format!("={}", r.pick(&["LeftToRight", "RightToLeft"])),
            12 => v[12] = format!("={}", r.pick(&["red", "#fff"])),
            13 => v[13] = format!("={}", r.chance(50)),
            _ => v[14] = format!("={}", r.pick(&["rust", "c"])),
        }
    }
    v
}
pub const STYLES: [&str; 8] = ["Disc", "Circle", "Square", "Decimal", "LowerAlpha", "UpperAlpha", "LowerRoman", "UpperRoman"];
pub fn rldelta(r: &mut Rng) -> Vec<String> {
    let mut v = vec!["-".to_string(); 4];
    let k = 1 + r.below(2);
    for _ in 0..k {
        match r.below(4) {
            0 => v[0] = format!("={}", r.pick(&STYLES)),
            1 => v[1] = format!("={}", r.below(4)),
            2 => v[2] = format!("={}", r.pick(&["(", "", "<"])),
            _ => v[3] = format!("={}", r.pick(&[")", "", "."])),
        }
    }
    v
}

/// Weights of operation groups per profile.
pub struct Prof {
    pub w: &'static [(&'static str, usize)],
    pub plain: bool,
    pub maxc: usize,
    pub maxb: usize,
}
pub fn prof(name: &str) -> Prof {
    let w: &'static [(&'static str, usize)] = match name {
        // text, formats, identity, cursors
        "edit" => &[("img", 3), ("cur", 30), ("ins", 14), ("insf", 6), ("blk", 8), ("del", 8), ("bsp", 8), ("rms", 6), ("fmt", 10), ("bfmt", 5),
            ("list", 5), ("undo", 6), ("redo", 4), ("cursors", 4), ("copy", 3), ("paste", 4), ("repl", 2), ("set", 1), ("group", 2)],
        "fmt" => &[("img", 4), ("cur", 30), ("ins", 12), ("insf", 10), ("blk", 6), ("del", 4), ("bsp", 5), ("rms", 5), ("fmt", 30), ("bfmt", 3),
            ("undo", 5), ("redo", 3), ("copy", 2), ("paste", 3), ("repl", 2), ("mdf", 1)],
        "block" => &[("img", 2), ("cur", 30), ("ins", 6), ("blk", 15), ("del", 8), ("bsp", 10), ("rms", 8), ("fmt", 2), ("bfmt", 25),
            ("list", 12), ("undo", 5), ("redo", 3), ("copy", 2), ("paste", 3), ("repl", 1)],
        "cursor" => &[("img", 3), ("cur", 40), ("cursors", 14), ("ins", 12), ("insf", 4), ("blk", 8), ("del", 8), ("bsp", 8), ("rms", 8), ("list", 3),
            ("undo", 8), ("redo", 6), ("copy", 2), ("paste", 4), ("fmt", 3), ("group", 2)],
        "undo" => &[("img", 4), ("cur", 25), ("ins", 12), ("insf", 5), ("blk", 7), ("del", 6), ("bsp", 6), ("rms", 5), ("fmt", 7), ("bfmt", 5),
            ("list", 10), ("undo", 22), ("redo", 20), ("burst_u", 4), ("burst_r", 4), ("copy", 2), ("paste", 4), ("repl", 4), ("set", 3), ("group", 4), ("mdf", 2)],
        "group" => &[("img", 2), ("cur", 12), ("type", 25), ("ins", 6), ("blk", 3), ("del", 12), ("bsp", 14), ("rms", 3), ("fmt", 4), ("list", 2),
            ("undo", 18), ("redo", 14), ("group", 12), ("gend", 14), ("clr", 1), ("burst_u", 2), ("burst_r", 2), ("long", 2), ("repl", 1), ("reset", 1)],
        "event" => &[("img", 4), ("cur", 25), ("ins", 12), ("insf", 5), ("blk", 9), ("del", 7), ("bsp", 7), ("rms", 7), ("fmt", 9), ("bfmt", 8),
            ("list", 6), ("undo", 12), ("redo", 10), ("copy", 2), ("paste", 4), ("repl", 4), ("set", 2), ("group", 4), ("gend", 4), ("clr", 1), ("reset", 1), ("setm", 2)],
        "view" => &[("img", 5), ("cur", 22), ("ins", 14), ("insf", 5), ("blk", 12), ("del", 6), ("bsp", 7), ("rms", 7), ("fmt", 8), ("bfmt", 4),
            ("list", 6), ("undo", 6), ("redo", 4), ("copy", 2), ("paste", 4), ("repl", 2), ("views", 14), ("reset", 1)],
        "nav" => &[("img", 1), ("setp", 14), ("mov", 50), ("sel", 12), ("ins", 8), ("blk", 4), ("rms", 2), ("undo", 1), ("cursors", 4)],
        "search" => &[("img", 1), ("cur", 12), ("ins", 12), ("blk", 4), ("bsp", 4), ("rms", 3), ("repl", 4), ("undo", 4), ("redo", 3), ("find", 34), ("finda", 34), ("paste", 1), ("list", 1), ("reset", 1)],
        "repl" => &[("img", 2), ("cur", 14), ("ins", 14), ("insf", 6), ("blk", 5), ("bsp", 3), ("rms", 2), ("fmt", 10), ("repl", 30), ("finda", 6), ("undo", 14), ("redo", 8), ("list", 2)],
        "list" => &[("img", 1), ("cur", 25), ("ins", 5), ("blk", 12), ("del", 4), ("bsp", 8), ("rms", 5), ("bfmt", 2), ("list", 40), ("undo", 8), ("redo", 6), ("copy", 2), ("paste", 3)],
        "frag" => &[("img", 6), ("cur", 25), ("ins", 8), ("insf", 4), ("blk", 8), ("rms", 3), ("fmt", 12), ("bfmt", 6), ("list", 6), ("undo", 5), ("redo", 3),
            ("copy", 18), ("paste", 18), ("fragtxt", 4), ("fragpt", 2)],
        "reset" => &[("cur", 16), ("ins", 10), ("insf", 3), ("blk", 8), ("rms", 4), ("fmt", 6), ("bfmt", 3), ("list", 5), ("undo", 6), ("redo", 4), ("reset", 22), ("views", 4), ("repl", 2), ("clr", 3), ("res", 4)],
        "meta" => &[("cur", 14), ("ins", 8), ("blk", 4), ("bsp", 4), ("fmt", 4), ("bfmt", 3), ("list", 3), ("undo", 14), ("redo", 10), ("set", 20), ("setm", 14), ("res", 14), ("repl", 2), ("paste", 2), ("copy", 1), ("clr", 1)],
        "hl" => &[("img", 4), ("cur", 24), ("ins", 12), ("insf", 5), ("blk", 10), ("del", 6), ("bsp", 6), ("rms", 7), ("fmt", 5), ("bfmt", 2),
            ("list", 4), ("undo", 8), ("redo", 6), ("copy", 5), ("paste", 7), ("fragpt", 3), ("repl", 5), ("reset", 2), ("mdf", 3), ("hl", 4), ("group", 2), ("gend", 3)],
        "fail" => &[("cur", 22), ("ins", 8), ("blk", 6), ("bsp", 3), ("rms", 3), ("fmt", 4), ("bfmt", 2), ("list", 6), ("undo", 8), ("redo", 6), ("bad", 40), ("copy", 1), ("paste", 2), ("group", 3), ("gend", 3)],
        "table" => &[("img", 2), ("cur", 34), ("cursors", 5), ("ins", 12), ("insf", 3), ("blk", 6), ("del", 5), ("bsp", 6), ("rms", 5), ("fmt", 5), ("bfmt", 4),
            ("list", 6), ("undo", 16), ("redo", 13), ("tab", 30), ("burst_u", 2), ("burst_r", 2), ("group", 2), ("gend", 3)],
        "tabx" => &[("img", 1), ("cur", 30), ("cursors", 3), ("ins", 16), ("insf", 3), ("blk", 6), ("bsp", 3), ("fmt", 4), ("bfmt", 2), ("list", 3),
            ("undo", 6), ("redo", 5), ("tab", 14), ("find", 10), ("finda", 10), ("repl", 8), ("views", 10), ("set", 2), ("setm", 2), ("fragpt", 3), ("copy", 4), ("paste", 6), ("fragtxt", 1)],
        _ => panic!("unknown profile {name}"),
    };
    if name.starts_with("tab") { Prof { w, plain: false, maxc: 50, maxb: 18 } } else { Prof { w, plain: false, maxc: 44, maxb: 7 } }
}

pub struct Gen {
    pub r: Rng,
    pub depth: usize,
    pub queue: Vec<Value>,
}
impl Gen {
    fn cidx(&mut self, t: &Trace) -> usize {
        let live: Vec<usize> = (0..t.s.cur.len()).filter(|i| t.s.cur[*i].is_some()).collect();
        if self.r.chance(60) { live[0] } else { *self.r.pick(&live) }
    }
    fn maxp(t: &Trace) -> usize {
        let b = t.last["B"].as_array().unwrap();
        b.iter().map(|x| x["t"].as_array().unwrap().len()).sum::<usize>() + b.len().saturating_sub(1)
    }
    pub fn setp(&mut self, t: &Trace, c: usize) -> Value {
        let m = Self::maxp(t);
        // favour block boundaries and the neighbourhood of other cursors
        let p = if self.r.chance(35) {
            let b = t.last["B"].as_array().unwrap();
            if b.is_empty() { return json!({"n":"setp","c":c,"p":0,"m":0}); }
            let x = self.r.pick(b);
            let s = x["p"].as_u64().unwrap() as usize;
            if self.r.chance(50) { s } else { s + x["t"].as_array().unwrap().len() }
        } else {
            { let x = if self.r.chance(4) { 6 } else { 0 }; self.r.below(m + 1 + x) }
        };
        json!({"n":"setp","c":c,"p":p,"m":if self.r.chance(45) {1} else {0}})
    }
    fn word(&mut self, t: &Trace) -> String {
        // a substring of the document most of the time
        let b = t.last["B"].as_array().unwrap();
        if b.is_empty() { return rtext(&mut self.r, 2, false); }
        let x = self.r.pick(b)["t"].as_array().unwrap();
        if !x.is_empty() && self.r.chance(85) {
            let s = self.r.below(x.len());
            let mx = if self.r.chance(70) { 2 } else { 4 };
            let k = 1 + self.r.below(mx);
            let w: String = x[s..(s + k).min(x.len())].iter().map(|c| unch(c.as_str().unwrap())).collect();
            return match self.r.below(6) {
                0 => w.to_uppercase(),
                1 => w.to_lowercase(),
                _ => w,
            };
        }
        rtext(&mut self.r, 2, false)
    }
    /// A regular expression and its atoms: characters, character classes and ".", once or repeated.
    fn pattern(&mut self, t: &Trace) -> (String, Value) {
        fn esc(c: char) -> String {
            if c == '\n' {
                "\\n".into()
            } else if c.is_ascii_punctuation() {
                format!("\\{c}")
            } else {
                c.to_string()
            }
        }
        let mut w: Vec<char> = self.word(t).chars().collect();
        let b = t.last["B"].as_array().unwrap();
        if b.len() > 1 && self.r.chance(25) {
            // around a block boundary
            let k = self.r.below(b.len() - 1);
            let edge = |x: Option<&Value>| -> Vec<char> { x.map(|c| unch(c.as_str().unwrap())).into_iter().collect() };
            w = edge(b[k]["t"].as_array().unwrap().last());
            w.push('\n');
            w.extend(edge(b[k + 1]["t"].as_array().unwrap().first()));
        }
        let (mut q, mut at) = (String::new(), vec![]);
        let mut solid = false; // a pattern must not match nothing
        for c in w {
            let set = match self.r.below(10) {
                0 => {
                    q.push('.');
                    vec!["any".to_string()]
                }
                1 | 2 => {
                    let o = *self.r.pick(&['a', 'b', '1', ' ', '-', '\u{e9}', '\n']);
                    q.push_str(&format!("[{}{}]", esc(c), esc(o)));
                    vec![ch(c), ch(o)]
                }
                _ => {
                    q.push_str(&esc(c));
                    vec![ch(c)]
                }
            };
            let rep = match self.r.below(20) {
                0..6 => "+",
                6 | 7 if solid => "?",
                8 | 9 if solid => "*",
                10 | 11 if c == '\n' && solid => "?",
                _ => "1",
            };
            solid |= rep == "1" || rep == "+";
            if rep != "1" {
                q.push_str(rep);
            }
            at.push(json!([set, rep]));
        }
        if self.r.chance(10) {
            q.push_str("\\n");
            at.push(json!([["U+000A"], "1"]));
        }
        if at.is_empty() {
            q.push('a');
            at.push(json!([["a"], "1"]));
        }
        (q, json!(at))
    }
    pub fn op(&mut self, t: &Trace, pf: &Prof) -> Value {
        if let Some(o) = self.queue.pop() {
            return o;
        }
        if t.s.cur.iter().all(|c| c.is_none()) {
            return json!({"n":"newc","p":0});
        }
        let tot: usize = pf.w.iter().map(|x| x.1).sum();
        loop {
            let mut k = self.r.below(tot);
            let mut g = "";
            for (n, w) in pf.w {
                if k < *w {
                    g = n;
                    break;
                }
                k -= w;
            }
            if let Some(o) = self.group_op(g, t, pf) {
                return o;
            }
        }
    }
    fn group_op(&mut self, g: &str, t: &Trace, pf: &Prof) -> Option<Value> {
        let c = self.cidx(t);
        let nb = t.last["B"].as_array().unwrap().len();
        let m = Self::maxp(t);
        let big = m > pf.maxc;
        let manyb = nb >= pf.maxb;
        let lists: Vec<u64> = t.last["L"].as_array().unwrap().iter().map(|l| l["i"].as_u64().unwrap()).collect();
        let bids: Vec<u64> = t.last["B"].as_array().unwrap().iter().map(|l| l["i"].as_u64().unwrap()).collect();
        let kind = g;
        let r = &mut self.r;
        Some(match g {
            "cur" => {
                if r.chance(75) {
                    self.setp(t, c)
                } else if r.chance(60) {
                    json!({"n":"mov","c":c,"o":*r.pick(&["NextCharacter","PreviousCharacter","StartOfBlock","EndOfBlock","Start","End"]),"m":r.below(2),"k":1+r.below(3)})
                } else {
                    json!({"n":"sel","c":c,"y":*r.pick(&["Word","Line","Block","Document"])})
                }
            }
            "setp" => self.setp(t, c),
            "cursors" => match r.below(5) {
                0 | 1 if t.s.cur.len() < 6 => json!({"n":"newc","p":r.below(m + 1)}),
                2 if t.s.cur.len() < 6 => json!({"n":"clone","c":c}),
                3 if t.s.cur.iter().filter(|x| x.is_some()).count() > 1 => json!({"n":"drop","c":c}),
                4 => json!({"n":"clrsel","c":c}),
                _ => self.setp(t, c),
            },
            "ins" if !big => {
                let mx = if r.chance(50) { 1 } else { 4 };
                json!({"n":"ins","c":c,"s":chars(&rtext(r, mx, pf.plain))})
            }
            "long" if !big => json!({"n":"ins","c":c,"s":chars(&"x".repeat(90 + r.below(30)))}),
            "type" if !big => {
                // a burst of single characters typed in place
                let k = 2 + r.below(4);
                let mut q = vec![];
                for i in 0..k {
                    if i > 0 && r.chance(3) {
                        // sometimes a steady slow rhythm: every gap inside the merge window, their sum beyond it
                        let slow = r.chance(40);
                        q.push(json!({"n":"pause","k": if slow { 1150 } else { 2150 }}));
                        if slow {
                            q.push(json!({"n":"ins","c":c,"s":chars("a")}));
                            q.push(json!({"n":"pause","k":1150}));
                        }
                    }
                    let ch = if r.chance(70) { *r.pick(&["a", "b", "c", "\u{e9}"]) } else { *r.pick(&[" ", ".", ",", "(", "-", "'", "_", "\u{65e5}", "7"]) };
                    q.push(json!({"n":"ins","c":c,"s":chars(ch)}));
                }
                q.reverse();
                self.queue.extend(q);
                return self.queue.pop();
            }
            "insf" if !big => json!({"n":"insf","c":c,"s":chars(&rtext(r, 3, pf.plain)),"d":rdelta(r)}),
            "img" if !big => json!({"n":"img","c":c,"v":*r.pick(&["x.png","y"]),"w":1+r.below(3),"h":1+r.below(2),"s":["U+FFFC"]}),
            "blk" if !manyb => json!({"n":"blk","c":c}),
            "del" | "bsp" => {
                if r.chance(25) {
                    let k = 1 + r.below(3);
                    for _ in 0..k {
                        self.queue.push(json!({"n":g,"c":c}));
                    }
                    return self.queue.pop();
                }
                json!({"n":g,"c":c})
            }
            "rms" => {
                if r.chance(70) {
                    let a = r.below(m + 1);
                    let b = if big { r.below(m + 1) } else { (a + 1 + r.below(6)).min(m) };
                    self.queue.push(json!({"n": if r.chance(30) {"seltxt"} else {"rms"},"c":c}));
                    self.queue.push(json!({"n":"setp","c":c,"p":b,"m":1}));
                    json!({"n":"setp","c":c,"p":a,"m":0})
                } else {
                    json!({"n":"rms","c":c})
                }
            }
            "fmt" => {
                let n = if r.chance(60) { "setf" } else { "mrgf" };
                json!({"n":n,"c":c,"d":rdelta(r)})
            }
            "bfmt" => json!({"n":"setb","c":c,"d":rbdelta(r)}),
            "list" => match r.below(9) {
                0 | 1 => json!({"n":"cl","c":c,"y":*r.pick(&STYLES)}),
                2 if !manyb => json!({"n":"il","c":c,"y":*r.pick(&STYLES)}),
                3 if !lists.is_empty() => json!({"n":"addl","c":c,"b":*r.pick(&bids),"l":*r.pick(&lists)}),
                4 => json!({"n":"reml","c":c,"b":*r.pick(&bids)}),
                5 if !lists.is_empty() => json!({"n":"rli","c":c,"l":*r.pick(&lists),"i":r.below(3)}),
                6 if !lists.is_empty() => json!({"n":"setl","c":c,"l":*r.pick(&lists),"d":rldelta(r)}),
                7 if !lists.is_empty() && r.chance(50) => json!({"n":"addcur","c":c,"l":*r.pick(&lists)}),
                7 => json!({"n":"remcur","c":c}),
                8 => {
                    if r.chance(50) { json!({"n":"curl","c":c}) } else { json!({"n":"setcl","c":c,"d":rldelta(r)}) }
                }
                _ => return None,
            },
            "undo" if self.depth == 0 => json!({"n":"undo"}),
            "redo" if self.depth == 0 => json!({"n":"redo"}),
            "burst_u" | "burst_r" if self.depth == 0 => {
                let k = 2 + r.below(6);
                for _ in 0..k {
                    self.queue.push(json!({"n":if g=="burst_u" {"undo"} else {"redo"}}));
                }
                return self.queue.pop();
            }
            "clr" if self.depth == 0 => json!({"n":"clr"}),
            "group" if self.depth < 3 => {
                self.depth += 1;
                json!({"n":"ebeg","c":c})
            }
            "gend" if self.depth > 0 => {
                self.depth -= 1;
                json!({"n":"eend","c":c})
            }
            "copy" => {
                let a = r.below(m + 1);
                let mut b = r.below(m + 1);
                if t.s.tables {
                    b = same_zone(&t.last, a, b);
                }
                self.queue.push(json!({"n":"copy","c":c}));
                self.queue.push(json!({"n":"setp","c":c,"p":b,"m":1}));
                json!({"n":"setp","c":c,"p":a,"m":0})
            }
            "paste" if !big && !manyb && !t.s.frags.is_empty() => json!({"n":"paste","c":c,"f":r.below(t.s.frags.len())}),
            "fragtxt" if !t.s.frags.is_empty() => json!({"n":"fragtxt","c":c,"f":r.below(t.s.frags.len())}),
            "fragpt" if r.chance(30) && !big && !t.s.tables => json!({"n":"fragdoc"}),
            "fragpt" => json!({"n":"fragpt","s":chars(&rdoc(r, false))}),
            "set" => match r.below(3) {
                0 => json!({"n":"title","v":*r.pick(&["T1","T2",""])}),
                1 => json!({"n":"dir","v":*r.pick(&["LeftToRight","RightToLeft"])}),
                _ => json!({"n":"wrap","v":*r.pick(&["NoWrap","WordWrap","WrapAnywhere"])}),
            },
            "setm" => json!({"n":"setm","v":r.chance(40)}),
            "res" => {
                if r.chance(50) {
                    let k = if r.chance(20) { r.below(60) } else { r.below(6) };
                    json!({"n":"res","v":*r.pick(&["a","b"]),"d":(0..k).map(|_| r.below(256)).collect::<Vec<_>>()})
                } else {
                    json!({"n":"getres","v":*r.pick(&["a","b","zz"])})
                }
            }
            "reset" if self.depth == 0 => {
                if r.chance(25) {
                    json!({"n":"clear"})
                } else {
                    let mut s = rdoc(r, false);
                    match r.below(8) {
                        0 => s.push('\n'),
                        1 => s = s.replace('\n', "\r\n"),
                        2 => s = format!("\n{s}"),
                        3 => s = String::new(),
                        4 => s = s.replace('\n', "\n\n"),
                        _ => {}
                    }
                    json!({"n":"spt","s":chars(&s)})
                }
            }
            "hl" => match r.below(8) {
                0 => json!({"n":"hloff"}),
                1 => json!({"n":"rehl"}),
                2 => json!({"n":"rehlb","b":if r.chance(10) { 999_999 } else { *r.pick(&bids) }}),
                _ => json!({"n":"hlon"}),
            },
            "tab" => {
                let g = t.last["G"].as_array().unwrap();
                let few = g.iter().map(|x| x["cells"].as_array().unwrap().len()).sum::<usize>() < 12;
                if g.is_empty() || (g.len() < 2 && few && r.chance(10)) {
                    return Some(json!({"n":"itab","c":c,"r":if r.chance(4) {0} else {1 + r.below(3)},"k":1 + r.below(3)}));
                }
                let x = r.pick(g);
                let (id, rows, cols) = (x["i"].as_u64().unwrap(), x["r"].as_u64().unwrap() as usize, x["c"].as_u64().unwrap() as usize);
                let cells = x["cells"].as_array().unwrap();
                let spans: Vec<&Value> = cells.iter().filter(|y| y["rs"] != 1 || y["cs"] != 1).collect();
                let few = cells.len() < 10;
                match r.below(16) {
                    0 if r.chance(25) => json!({"n":"rtab","c":c,"t":if r.chance(10) {777_777} else {id}}),
                    1 | 2 if few => json!({"n":"irow","c":c,"t":id,"i":r.below(rows + 2)}),
                    3 | 4 if few => json!({"n":"icol","c":c,"t":id,"i":r.below(cols + 2)}),
                    5 | 6 => json!({"n":"drow","c":c,"t":id,"i":r.below(rows + 1)}),
                    7 | 8 => json!({"n":"dcol","c":c,"t":id,"i":r.below(cols + 1)}),
                    9..=11 => {
                        let (r1, c1) = (r.below(rows), r.below(cols));
                        json!({"n":"mcell","c":c,"t":id,"r1":r1,"c1":c1,"r2":(r1 + r.below(3)).min(rows),"c2":(c1 + r.below(3)).min(cols)})
                    }
                    12 | 13 => {
                        let y = if spans.is_empty() || r.chance(15) { r.pick(cells) } else { *r.pick(&spans) };
                        let (a, b) = (y["rs"].as_u64().unwrap() as usize, y["cs"].as_u64().unwrap() as usize);
                        json!({"n":"scell","c":c,"b":y["i"],"r":if r.chance(8) { a + 1 } else { 1 + r.below(a) },"k":1 + r.below(b)})
                    }
                    14 => {
                        let mut v = vec!["-".to_string(); 5];
                        let k = r.below(4);
                        v[k] = format!("={}", r.below(4));
                        if r.chance(30) { v[4] = "=Center".into(); }
                        json!({"n":"tfmt","c":c,"t":id,"d":v})
                    }
                    15 => {
                        let mut v = vec!["-".to_string(); 4];
                        let k = r.below(2);
                        v[k] = format!("={}", r.below(4));
                        if r.chance(30) { v[2] = "=Middle".into(); }
                        if r.chance(30) { v[3] = "=red".into(); }
                        json!({"n":"cfmt","c":c,"b":r.pick(cells)["i"],"d":v})
                    }
                    _ => return None,
                }
            }
            "views" => json!({"n":"views"}),
            "find" | "finda" | "repl" if kind != "repl" || !big => {
                let mut op = json!({"n":kind,"o":{"cs":r.chance(if kind == "repl" {60} else {50}),"ww":r.chance(25),"rx":false,"bk":kind == "find" && r.chance(40)}});
                if self.r.chance(25) {
                    let (q, at) = self.pattern(t);
                    op["o"]["rx"] = json!(true);
                    op["o"]["cs"] = json!(true);
                    op["q"] = json!(chars(&q));
                    op["at"] = at;
                } else {
                    let mut q = self.word(t);
                    if self.r.chance(8) {
                        q.push('\n');
                    }
                    op["q"] = json!(chars(&q));
                }
                match kind {
                    "find" => op["p"] = json!(self.r.below(m + 3)),
                    "repl" => {
                        op["all"] = json!(self.r.chance(65));
                        op["s"] = json!(chars(&if self.r.chance(25) { String::new() } else { rtext(&mut self.r, 3, false) }));
                    }
                    _ => {}
                }
                op
            }
            "mdf" if !big && !manyb => json!({"n":"md","c":c,"v":*r.pick(&["**b** c","# h\n\nx","- i\n- j","*i*"])}),
            "mov" => json!({"n":"mov","c":c,"o":*r.pick(&MOVES),"m":r.below(2),"k":r.below(5)}),
            "sel" => json!({"n":"sel","c":c,"y":*r.pick(&["Word","Line","Block","Document"])}),
            "bad" => match r.below(14) {
                0 => json!({"n":"addl","c":c,"b":999_999,"l":*lists.first().unwrap_or(&888_888)}),
                1 => json!({"n":"addl","c":c,"b":*r.pick(&bids),"l":888_888}),
                2 => json!({"n":"reml","c":c,"b":999_999}),
                3 => json!({"n":"rli","c":c,"l":*lists.first().unwrap_or(&888_888),"i":50}),
                4 => json!({"n":"setl","c":c,"l":888_888,"d":rldelta(r)}),
                5 => json!({"n":"paste","c":c,"f":0}),
                6 => json!({"n":"md","c":c,"v":""}),
                7 => json!({"n":"html","c":c,"v":""}),
                8 => json!({"n":"img","c":c,"v":"x","w":0,"h":5}),
                9 => json!({"n":"irow","c":c,"t":777_777,"i":0}),
                10 => json!({"n":"itab","c":c,"r":0,"k":2}),
                11 => json!({"n":"repl","q":["["],"s":["x"],"all":true,"o":{"cs":true,"ww":false,"rx":true,"bk":false}}),
                12 => json!({"n":"finda","q":["("],"o":{"cs":true,"ww":false,"rx":true,"bk":false}}),
                _ => json!({"n":"mcell","c":c,"t":777_777,"r1":0,"c1":0,"r2":1,"c2":1}),
            },
            _ => return None,
        })
    }
}

/// The position nearest to `b` in the same cell (or run of blocks outside tables) as `a`.
fn same_zone(st: &Value, a: usize, b: usize) -> usize {
    let empty = vec![];
    let blocks = st["B"].as_array().unwrap();
    let zone = |id: &Value| -> u64 {
        for g in st["G"].as_array().unwrap_or(&empty) {
            for cell in g["cells"].as_array().unwrap_or(&empty) {
                if cell["B"].as_array().unwrap_or(&empty).iter().any(|x| x["i"] == *id) {
                    return 1 + cell["i"].as_u64().unwrap_or(0);
                }
            }
        }
        0
    };
    let at = |p: usize| blocks.iter().rposition(|x| x["p"].as_u64().unwrap_or(0) as usize <= p).unwrap_or(0);
    let (ka, mut kb) = (at(a), at(b));
    if zone(&blocks[ka]["i"]) == zone(&blocks[kb]["i"]) && ka.abs_diff(kb) < 3 {
        let (lo, hi) = (ka.min(kb), ka.max(kb));
        if (lo..=hi).all(|k| zone(&blocks[k]["i"]) == zone(&blocks[ka]["i"])) {
            return b;
        }
    }
    kb = ka;
    let p = blocks[kb]["p"].as_u64().unwrap_or(0) as usize;
    p + b % (1 + blocks[kb]["t"].as_array().map_or(0, |t| t.len()))
}

pub fn drive(profile: &str, seed: u64, ntr: usize, steps: usize, out: &str) {
    let mut log = Log::new(out);
    let pf = prof(profile);
    for k in 0..ntr {
        let mut g = Gen { r: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64)), depth: 0, queue: vec![] };
        let text = if g.r.chance(8) { String::new() } else { rdoc(&mut g.r, false) };
        let mut t = Trace::new(k, &text, profile.starts_with("tab"), &mut log);
        let m0 = Gen::maxp(&t); let p0 = g.r.below(m0 + 1);
        t.step(json!({"n":"newc","p":p0}), &mut log);
        if profile == "hl" && g.r.chance(90) {
            t.step(json!({"n":"hlon"}), &mut log);
        }
        if profile == "fail" {
            t.step(json!({"n":"fragpt","s":[]}), &mut log);
        }
        for _ in 0..steps {
            let op = g.op(&t, &pf);
            let res = t.step(op, &mut log);
            if res["k"] == "panic" {
                g.depth = 0;
                break;
            }
        }
        while g.depth > 0 && !t.s.cur.is_empty() {
            g.depth -= 1;
            let c = (0..t.s.cur.len()).find(|i| t.s.cur[*i].is_some()).unwrap_or(0);
            t.step(json!({"n":"eend","c":c}), &mut log);
        }
        t.end(&mut log);
    }
    log.finish();
}

/// Applies the ops of a file (one JSON object per line with "tr" and "op"), logging as `drive` does.
pub fn replay(file: &str, out: &str) {
    let mut log = Log::new(out);
    let mut t: Option<Trace> = None;
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let op = v["op"].clone();
        if op["n"] == "start" {
            if let Some(x) = t.take() {
                x.end(&mut log);
            }
            t = Some(Trace::new(v["tr"].as_u64().unwrap() as usize, &unchars(&op["s"]), op["tab"].as_bool().unwrap_or(false), &mut log));
            continue;
        }
        let t = t.as_mut().unwrap();
        let mut o = op;
        for k in ["g", "w", "wc", "fl", "ql", "k0"] {
            o.as_object_mut().unwrap().remove(k);
        }
        t.step(o, &mut log);
    }
    if let Some(x) = t.take() {
        x.end(&mut log);
    }
    log.finish();
}
