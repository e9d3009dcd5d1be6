//! Replays LongOp.tla: operations held at the points of the specification.
use common::event::{EventHub, LongOperationEvent, Origin};
use common::long_operation::{LongOperation, LongOperationManager, OperationProgress, OperationStatus};
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type Callback = Box<dyn Fn(OperationProgress) + Send>;

/// What the test and the operation's thread share.
#[derive(Default)]
struct Ctl {
    m: Mutex<State>,
    cv: Condvar,
}
#[derive(Default)]
struct State {
    callback: Option<Callback>,
    flag: Option<Arc<AtomicBool>>,
    order: Option<String>,
    at_gate: bool,
    open: bool,
}
impl Ctl {
    fn set(&self, f: impl FnOnce(&mut State)) {
        f(&mut self.m.lock().unwrap());
        self.cv.notify_all();
    }
    fn wait(&self, f: impl Fn(&State) -> bool) -> bool {
        let end = Instant::now() + Duration::from_secs(3);
        let mut s = self.m.lock().unwrap();
        while !f(&s) {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            s = self.cv.wait_timeout(s, left).unwrap().0;
        }
        true
    }
    /// Between the return of the work and the record of its end.
    fn gate(&self) {
        self.set(|s| s.at_gate = true);
        self.wait(|s| s.open);
    }
}

struct Out(Arc<Ctl>, bool, u64);
impl serde::Serialize for Out {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.gate();
        if self.1 { s.serialize_u64(self.2) } else { Err(serde::ser::Error::custom("cannot be written")) }
    }
}
struct Bad(Arc<Ctl>, u64);
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.gate();
        write!(f, "error {}", self.1)
    }
}
impl std::fmt::Debug for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::error::Error for Bad {}

struct Op(Arc<Ctl>, u64);
impl LongOperation for Op {
    type Output = Out;
    fn execute(&self, callback: Callback, flag: Arc<AtomicBool>) -> anyhow::Result<Out> {
        self.0.set(|s| {
            s.callback = Some(callback);
            s.flag = Some(flag);
        });
        self.0.wait(|s| s.order.is_some());
        let o = self.0.m.lock().unwrap().order.clone().unwrap_or_default();
        match o.as_str() {
            "ok" => Ok(Out(self.0.clone(), true, self.1)),
            "badser" => Ok(Out(self.0.clone(), false, self.1)),
            "err" => Err(anyhow::Error::new(Bad(self.0.clone(), self.1))),
            _ => panic!("told to"),
        }
    }
}

struct Run {
    mgr: LongOperationManager,
    ids: Vec<String>,
    ctl: Vec<Arc<Ctl>>,
    rx: Box<dyn Fn() -> Option<common::event::Event>>,
    evs: Vec<(String, Value)>,
}
impl Drop for Run {
    fn drop(&mut self) {
        for c in &self.ctl {
            c.set(|s| {
                s.order.get_or_insert("panic".into());
                s.open = true;
                s.callback = None;
            });
        }
    }
}
impl Run {
    fn drain(&mut self) {
        while let Some(e) = (self.rx)() {
            let k = match e.origin {
                Origin::LongOperation(LongOperationEvent::Started) => "Started",
                Origin::LongOperation(LongOperationEvent::Progress) => "Progress",
                Origin::LongOperation(LongOperationEvent::Completed) => "Completed",
                Origin::LongOperation(LongOperationEvent::Cancelled) => "Cancelled",
                Origin::LongOperation(LongOperationEvent::Failed) => "Failed",
                _ => "?",
            };
            let d = e.data.unwrap_or_default();
            let v = if k == "Started" { serde_json::json!({"id": d}) } else { serde_json::from_str(&d).unwrap_or(Value::Null) };
            self.evs.push((k.into(), v));
        }
    }
    /// The thread of operation j is over, and has announced its end.
    fn settle(&mut self, j: usize) {
        let end = Instant::now() + Duration::from_secs(3);
        let id = self.ids[j].clone();
        loop {
            self.drain();
            let said =
                self.evs.iter().any(|(k, v)| k != "Started" && k != "Progress" && v["id"] == id.as_str());
            let listed = self.mgr.get_operation_status(&id);
            if said && listed != Some(OperationStatus::Running) || Instant::now() > end {
                break;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        // The thread may still hold its locks for an instant; what it does after its announcement shows later.
        std::thread::sleep(Duration::from_micros(200));
        self.drain();
    }
}

/// Ok(None): as specified; Err: the implementation cannot be held at this point.
fn perform(c: &Value) -> Result<Option<String>, ()> {
    let hub = Arc::new(EventHub::new());
    let rx = hub.subscribe_receiver();
    let mut mgr = LongOperationManager::new();
    mgr.set_event_hub(&hub);
    let mut r = Run { mgr, ids: vec![], ctl: vec![], rx: Box::new(move || rx.try_recv().ok()), evs: vec![] };
    let mut known = vec![];
    let mut bad = None;
    for a in c["path"].as_array().unwrap() {
        let j = a[1].as_u64().unwrap_or(1) as usize - 1;
        match a[0].as_str().unwrap() {
            "start" => {
                let ctl: Arc<Ctl> = Arc::default();
                let id = r.mgr.start_operation(Op(ctl.clone(), r.ids.len() as u64 + 7));
                if r.ids.contains(&id) {
                    return Ok(Some("two operations with one id".into()));
                }
                if !ctl.wait(|s| s.callback.is_some()) {
                    return Ok(Some("the operation does not start".into()));
                }
                r.ids.push(id);
                r.ctl.push(ctl);
                known.push(true);
            }
            "prog" => {
                let s = r.ctl[j].m.lock().unwrap();
                let v = a[2].as_i64().unwrap() as f32;
                (s.callback.as_ref().unwrap())(OperationProgress::new(v, Some(format!("at {v}"))));
            }
            "ret" => {
                let o = a[2].as_str().unwrap().to_string();
                r.ctl[j].set(|s| s.order = Some(o));
                if !r.ctl[j].wait(|s| s.at_gate) {
                    return Err(());
                }
            }
            "panic" => {
                r.ctl[j].set(|s| s.order = Some("panic".into()));
                r.settle(j);
            }
            "end" => {
                r.ctl[j].set(|s| s.open = true);
                r.settle(j);
            }
            "cancel" => {
                let id = &r.ids[j];
                let done = AtomicBool::new(false);
                let ctl = &r.ctl[j];
                let (ans, waited) = std::thread::scope(|sc| {
                    let t = sc.spawn(|| {
                        let x = r.mgr.cancel_operation(id);
                        done.store(true, SeqCst);
                        x
                    });
                    let end = Instant::now() + Duration::from_secs(1);
                    while !done.load(SeqCst) && Instant::now() < end {
                        std::thread::yield_now();
                    }
                    let waited = !done.load(SeqCst);
                    if waited {
                        ctl.set(|s| s.open = true);
                    }
                    (t.join().unwrap(), waited)
                });
                if waited {
                    return Err(());
                }
                if ans != known[j] {
                    bad = Some(format!("cancel answers {ans}"));
                }
            }
            _ => {
                r.mgr.cleanup_finished_operations();
                for (j, k) in known.iter_mut().enumerate() {
                    *k = *k && r.mgr.get_operation_status(&r.ids[j]).is_some();
                }
            }
        }
    }
    r.drain();
    if bad.is_some() {
        return Ok(bad);
    }
    let ops = c["ops"].as_array().unwrap();
    let mut listed = vec![];
    for (j, o) in ops.iter().enumerate() {
        let id = r.ids[j].as_str();
        let say = |w: &str, g: String| Ok(Some(format!("operation {}: {w} is {g}, specified {o}", j + 1)));
        let st = r.mgr.get_operation_status(id);
        let name = match &st {
            None => "",
            Some(OperationStatus::Running) => "Running",
            Some(OperationStatus::Completed) => "Completed",
            Some(OperationStatus::Cancelled) => "Cancelled",
            Some(OperationStatus::Failed(_)) => "Failed",
        };
        let kn = o["known"] == true;
        if kn {
            listed.push(id.to_string());
        }
        if name != if kn { o["st"].as_str().unwrap() } else { "" } {
            return say("status", name.into());
        }
        if let Some(OperationStatus::Failed(m)) = &st {
            let fine = match o["out"].as_str().unwrap() {
                "err" => *m == format!("error {}", j + 7),
                "badser" => m.contains("cannot be written"),
                _ => m.contains("told to"),
            };
            if !fine {
                return say("error", m.clone());
            }
        }
        if r.mgr.is_operation_finished(id) != if kn { Some(o["st"] != "Running") } else { None } {
            return say("finished", format!("{:?}", r.mgr.is_operation_finished(id)));
        }
        let p = r.mgr.get_operation_progress(id).map(|p| p.percentage as i64);
        if p != if kn { o["p"].as_i64() } else { None } {
            return say("progress", format!("{p:?}"));
        }
        let res = r.mgr.get_operation_result(id);
        let want = (o["res"] == true).then(|| (j + 7).to_string());
        if res != want || r.mgr.get_operation_result(id) != want {
            return say("result", format!("{res:?}"));
        }
        let flag = r.ctl[j].m.lock().unwrap().flag.as_ref().unwrap().load(SeqCst);
        if flag != (o["st"] == "Cancelled") && o["ph"] != "stop" {
            return say("cancel flag", format!("{flag}"));
        }
    }
    let mut l = r.mgr.list_operations();
    l.sort();
    listed.sort();
    let mut s: Vec<_> = r.mgr.get_operations_summary().into_iter().map(|x| x.0).collect();
    s.sort();
    if l != listed || s != listed {
        return Ok(Some(format!("lists {l:?} {s:?} instead of {listed:?}")));
    }
    if r.mgr.get_operation_status("op_none").is_some() || r.mgr.cancel_operation("op_none") {
        return Ok(Some("an operation that never was".into()));
    }
    let want: Vec<_> = c["evs"].as_array().unwrap().clone();
    let same = want.len() == r.evs.len()
        && want.iter().zip(&r.evs).all(|(w, (k, v))| {
            let id = r.ids[w[1].as_u64().unwrap() as usize - 1].as_str();
            w[0] == k.as_str() && v["id"] == id && (k != "Progress" || v["percentage"].as_f64() == w[2].as_f64())
        });
    if !same {
        return Ok(Some(format!("events {:?} instead of {want:?}", r.evs)));
    }
    Ok(None)
}

pub fn run(input: &str, output: &str) {
    let held = AtomicBool::new(true);
    crate::cases(input, output, "longopmc", |raw| {
        let c: Value = serde_json::from_str(raw).unwrap();
        let p = c["path"].as_array().unwrap();
        let last = p.last().unwrap().clone();
        // An implementation that cannot be held between return and end is checked without cancelling there.
        if !held.load(SeqCst) && p.iter().any(|a| a[0] == "ret") && p.iter().any(|a| a[0] == "cancel") {
            return None;
        }
        let r = catch_unwind(AssertUnwindSafe(|| perform(&c)));
        match r {
            Ok(Ok(None)) => None,
            Ok(Ok(Some(d))) => Some((d, last)),
            Ok(Err(())) => {
                held.store(false, SeqCst);
                eprintln!("not held: {raw}");
                None
            }
            Err(_) => Some(("panic".into(), last)),
        }
    });
}
