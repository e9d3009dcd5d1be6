//! Replays the calls of Undo.tla into the real UndoRedoManager with recording commands.
use common::undo_redo::{UndoRedoCommand, UndoRedoManager};
use serde_json::{Value, json};
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct World {
    applied: Vec<i64>,
    calls: Vec<(i64, &'static str)>,
    fail: i64,
    bad: Vec<String>,
}
type W = Arc<Mutex<World>>;

struct Cmd {
    w: W,
    atoms: Vec<i64>,
    kind: String,
}

impl Cmd {
    fn run(&mut self, what: &'static str) -> anyhow::Result<()> {
        let mut w = self.w.lock().unwrap();
        if self.atoms.contains(&w.fail) {
            anyhow::bail!("planned failure");
        }
        let order: Vec<i64> =
            if what == "u" { self.atoms.iter().rev().copied().collect() } else { self.atoms.clone() };
        for a in order {
            w.calls.push((a, what));
            let was = w.applied[a as usize];
            let now = if what == "u" { was - 1 } else { was + 1 };
            if !(0..=1).contains(&now) {
                w.bad.push(format!("command {a} {what} twice"));
            }
            w.applied[a as usize] = now;
        }
        Ok(())
    }
}

impl UndoRedoCommand for Cmd {
    fn undo(&mut self) -> anyhow::Result<()> {
        self.run("u")
    }
    fn redo(&mut self) -> anyhow::Result<()> {
        self.run("r")
    }
    fn can_merge(&self, other: &dyn UndoRedoCommand) -> bool {
        match other.as_any().downcast_ref::<Cmd>() {
            Some(o) => self.kind != "p" && o.kind != "p",
            None => false,
        }
    }
    fn merge(&mut self, other: &dyn UndoRedoCommand) -> bool {
        match other.as_any().downcast_ref::<Cmd>() {
            Some(o) if self.kind == "m" && o.kind == "m" => {
                self.atoms.extend(&o.atoms);
                true
            }
            _ => false,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

fn sid(v: &Value) -> Option<u64> {
    let i = v.as_i64().unwrap();
    if i < 0 { None } else { Some(i as u64) }
}

fn apply(m: &mut UndoRedoManager, w: &W, op: &Value) -> (bool, Option<u64>) {
    w.lock().unwrap().fail = op["f"].as_i64().unwrap_or(0);
    let mut id = None;
    let ok = match op["n"].as_str().unwrap() {
        "add" => {
            let a = {
                let mut g = w.lock().unwrap();
                g.applied.push(1);
                g.applied.len() as i64 - 1
            };
            let c = Box::new(Cmd { w: w.clone(), atoms: vec![a], kind: op["k"].as_str().unwrap().into() });
            m.add_command_to_stack(c, sid(&op["s"])).is_ok()
        }
        "undo" => m.undo(sid(&op["s"])).is_ok(),
        "redo" => m.redo(sid(&op["s"])).is_ok(),
        "begin" => m.begin_composite(sid(&op["s"])).is_ok(),
        "end" => {
            m.end_composite();
            true
        }
        "cancel" => {
            m.cancel_composite();
            true
        }
        "clear" => {
            m.clear_stack(op["s"].as_u64().unwrap());
            true
        }
        "clearall" => {
            m.clear_all_stacks();
            true
        }
        "new" => {
            id = Some(m.create_new_stack());
            true
        }
        "del" => m.delete_stack(op["s"].as_u64().unwrap()).is_ok(),
        x => panic!("unknown op {x}"),
    };
    w.lock().unwrap().fail = 0;
    (ok, id)
}

fn one(c: &Value) -> Result<(), String> {
    let w: W = Default::default();
    w.lock().unwrap().applied.push(0);
    let mut m = UndoRedoManager::new();
    let path = c["p"].as_array().unwrap();
    for op in &path[..path.len() - 1] {
        apply(&mut m, &w, op);
    }
    let last = path.last().unwrap();
    let before = w.lock().unwrap().applied.clone();
    w.lock().unwrap().calls.clear();
    let (ok, id) = apply(&mut m, &w, last);
    let want = c["ok"].as_bool().unwrap();
    if ok != want {
        return Err(format!("the call returned {}, not {}", if ok { "ok" } else { "an error" }, if want { "ok" } else { "an error" }));
    }
    if let Some(id) = id
        && id + 1 != c["next"].as_u64().unwrap()
    {
        return Err(format!("new stack id {id}"));
    }
    let calls = |w: &W| -> Vec<(i64, String)> { w.lock().unwrap().calls.iter().map(|(a, s)| (*a, s.to_string())).collect() };
    let exp: Vec<(i64, String)> =
        c["calls"].as_array().unwrap().iter().map(|x| (x[0].as_i64().unwrap(), x[1].as_str().unwrap().to_string())).collect();
    if !ok {
        // How a failing group puts itself back is its own business; that nothing changed is not.
        let mut b = before.clone();
        b.resize(w.lock().unwrap().applied.len(), 1);
        if w.lock().unwrap().applied != b {
            return Err("a failed call left commands undone or redone".into());
        }
    } else if calls(&w) != exp {
        return Err(format!("members called {:?}, expected {:?}", calls(&w), exp));
    }
    // Every stack as it can be seen, then emptied step by step in both directions.
    let st = c["st"].as_array().unwrap();
    for id in 0..c["next"].as_u64().unwrap() + 1 {
        let s = st.iter().find(|s| s["id"].as_u64() == Some(id));
        let (u, r) = s.map_or((0, 0), |s| (s["u"].as_array().unwrap().len(), s["r"].as_array().unwrap().len()));
        let sid = if id == 0 && path.len() % 2 == 0 { None } else { Some(id) };
        if m.get_stack_size(id) != u || m.can_undo(sid) != (u > 0) || m.can_redo(sid) != (r > 0) {
            return Err(format!("stack {id}: size {}, can_undo {}, can_redo {}; expected {u} undo and {r} redo steps",
                m.get_stack_size(id), m.can_undo(sid), m.can_redo(sid)));
        }
        if s.is_none() && (m.undo(Some(id)).is_ok() || m.redo(Some(id)).is_ok()) {
            return Err(format!("stack {id} still answers"));
        }
    }
    for s in st.iter().rev() {
        let id = Some(s["id"].as_u64().unwrap());
        let steps = |k: &str| -> Vec<Vec<i64>> {
            s[k].as_array().unwrap().iter().map(|e| e.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()).collect()
        };
        let (u, mut r) = (steps("u"), steps("r"));
        r.reverse();
        for e in &r {
            w.lock().unwrap().calls.clear();
            let want: Vec<(i64, String)> = e.iter().map(|a| (*a, "r".to_string())).collect();
            if m.redo(id).is_err() || calls(&w) != want {
                return Err(format!("stack {id:?}: redo called {:?}, expected {want:?}", calls(&w)));
            }
        }
        for e in u.iter().chain(&r).rev() {
            w.lock().unwrap().calls.clear();
            let want: Vec<(i64, String)> = e.iter().rev().map(|a| (*a, "u".to_string())).collect();
            if m.undo(id).is_err() || calls(&w) != want {
                return Err(format!("stack {id:?}: undo called {:?}, expected {want:?}", calls(&w)));
            }
        }
        if m.can_undo(id) || m.get_stack_size(id.unwrap()) != 0 {
            return Err(format!("stack {id:?} holds more steps than it should"));
        }
    }
    let bad = w.lock().unwrap().bad.clone();
    if let Some(b) = bad.first() {
        return Err(b.clone());
    }
    Ok(())
}

pub fn run(input: &str, output: &str) {
    crate::cases(input, output, "undomc", |raw| {
        let c: Value = serde_json::from_str(raw).unwrap();
        match catch_unwind(AssertUnwindSafe(|| one(&c))) {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some((e, c["p"].as_array().unwrap().last().unwrap().clone())),
            Err(_) => Some(("panic".into(), json!(c["p"].as_array().unwrap().last()))),
        }
    });
}
