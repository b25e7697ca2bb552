//! External memory, locks, deferred destruction (spec/ExternalMemory.tla, Deferred.tla, Traceable.tla).
use crate::log::{self, Hand, Iso};
use mbt::{Exec, Rng, Sut};
use openworkers_runtime_v8::gc::{ExternalMemoryGuard, JsLock};
use ow_sync::atomic::{AtomicI64, Ordering};
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Mutex, OnceLock};

thread_local! {
    static LOCKS: RefCell<Vec<JsLock>> = const { RefCell::new(Vec::new()) };
}

pub struct World {
    pub isos: HashMap<String, Iso>,
    pub hands: HashMap<String, Hand>,
}
pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| World {
        isos: ["A", "B", "C"].iter().map(|n| (n.to_string(), log::isolate())).collect(),
        hands: ["t1", "t2"].iter().map(|n| (n.to_string(), Hand::new())).collect(),
    })
}

struct Em {
    see: Vec<String>,
    isos: Vec<String>,
    threads: Vec<String>,
    names: Vec<String>,
    pend: HashMap<String, Arc<AtomicI64>>,
    ext: HashMap<String, i64>,
    guards: Arc<Mutex<HashMap<String, ExternalMemoryGuard>>>,
    /// bytes per unit of the specification
    unit: i64,
}

impl Em {
    fn absorb(&mut self) {
        for e in log::take() {
            if e.kind == log::ADJUST {
                for (n, i) in &world().isos {
                    if i.raw == e.what {
                        *self.ext.entry(n.clone()).or_default() += e.value;
                    }
                }
            }
        }
    }
    fn observe(&mut self) -> Value {
        self.absorb();
        let mut cur = Map::new();
        for t in &self.threads {
            let pend = self.pend.clone();
            let c = world().hands[t].run(move || {
                JsLock::try_current().map(|l| {
                    let p = l.pending_delta();
                    pend.iter().find(|(_, x)| Arc::ptr_eq(x, &p)).map(|(n, _)| n.clone()).unwrap_or("?".into())
                })
            });
            cur.insert(t.clone(), json!(c.unwrap_or("none".into())));
        }
        let g = self.guards.lock().unwrap();
        let unit = |n: i64| if n % self.unit == 0 { json!(n / self.unit) } else { json!(format!("{n} bytes")) };
        let all = json!({
            "ext": self.isos.iter().map(|i| (i.clone(), unit(self.ext.get(i).copied().unwrap_or(0)))).collect::<Map<_, _>>(),
            "pend": self.isos.iter().map(|i| (i.clone(), unit(self.pend[i].load(Ordering::SeqCst)))).collect::<Map<_, _>>(),
            "amt": self.names.iter().map(|x| (x.clone(), g.get(x).map(|g| unit(g.amount())).unwrap_or(json!(0)))).collect::<Map<_, _>>(),
            "live": self.names.iter().map(|x| (x.clone(), json!(g.contains_key(x)))).collect::<Map<_, _>>(),
            "cur": cur,
        });
        Value::Object(self.see.iter().map(|k| (k.clone(), all[k].clone())).collect())
    }
}

fn lock(i: Iso, p: &Arc<AtomicI64>) {
    let l = unsafe { JsLock::new(&mut *i.isolate, p) };
    LOCKS.with(|s| s.borrow_mut().push(l));
}
fn unlock() {
    let l = LOCKS.with(|s| s.borrow_mut().pop());
    drop(l);
}

impl Sut for Em {
    fn step(&mut self, act: &Value) -> Value {
        let t = act["t"].as_str().unwrap();
        let a = act.clone();
        let guards = self.guards.clone();
        let pend = self.pend.clone();
        let unit = self.unit;
        world().hands[t].run(move || {
            let x = a["x"].as_str().unwrap_or("").to_string();
            let mut g = guards.lock().unwrap();
            match a["op"].as_str().unwrap() {
                "lock" => {
                    let i = a["i"].as_str().unwrap();
                    lock(world().isos[i], &pend[i]);
                }
                "unlock" => unlock(),
                "new" => {
                    let n = a["n"].as_i64().unwrap() * unit;
                    g.insert(x, if n == 0 { ExternalMemoryGuard::empty() } else { ExternalMemoryGuard::new(n) });
                }
                "adjust" => g.get_mut(&x).unwrap().adjust(a["d"].as_i64().unwrap() * unit),
                "set" => g.get_mut(&x).unwrap().set(a["n"].as_i64().unwrap() * unit),
                "drop" => drop(g.remove(&x)),
                x => panic!("{x}"),
            }
        });
        self.observe()
    }
    fn finish(&mut self) -> Value {
        for t in &self.threads {
            world().hands[t].run(|| while LOCKS.with(|s| !s.borrow().is_empty()) { unlock() });
        }
        self.guards.lock().unwrap().clear();
        log::take();
        Value::Null
    }
}

pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

pub fn external(input: &Value, out: &str) {
    world();
    mbt::replay(input, out, &mut |cfg| {
        log::take();
        let isos = strings(&cfg["isolates"]);
        Box::new(Em {
            see: strings(&cfg["see"]),
            pend: isos.iter().map(|i| (i.clone(), Arc::new(AtomicI64::new(0)))).collect(),
            isos,
            threads: strings(&cfg["threads"]),
            names: strings(&cfg["guards"]),
            ext: HashMap::new(),
            guards: Default::default(),
            unit: cfg["unit"].as_i64().unwrap_or(1),
        })
    });
}

/// Programs: per thread a list of operations of the specification on isolate "A".
pub fn external_conc(input: &Value, out: &str) {
    mbt::watchdog(out.to_string(), 60);
    let iso = world().isos["A"];
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rng = Rng(input["seed"].as_u64().unwrap_or(1));
    let (mut total, mut all) = (0, true);
    for prog in input["programs"].as_array().unwrap() {
        let mut seen = std::collections::HashSet::new();
        let (runs, complete) = mbt::explore(
            input["preempt"].as_u64().unwrap() as usize,
            input["limit"].as_u64().unwrap() as usize,
            input["random"].as_u64().unwrap() as usize,
            &mut rng,
            |choose| {
                log::take();
                let pend = Arc::new(AtomicI64::new(0));
                let guards: Arc<Mutex<HashMap<String, ExternalMemoryGuard>>> = Default::default();
                let ev = Arc::new(Mutex::new(Vec::new()));
                // guards made under the lock before the threads start
                for op in prog["before"].as_array().unwrap() {
                    ev.lock().unwrap().push(json!({"k": "call", "t": "t0", "op": op}));
                    run_op(op, iso, &pend, &guards);
                    ev.lock().unwrap().push(json!({"k": "ret", "t": "t0", "r": "ok"}));
                }
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for (t, ops) in prog["threads"].as_array().unwrap().iter().enumerate() {
                    let (ops, pend, guards, ev) = (ops.clone(), pend.clone(), guards.clone(), ev.clone());
                    bodies.push(Box::new(move || {
                        for op in ops.as_array().unwrap() {
                            ev.lock().unwrap().push(json!({"k": "call", "t": format!("t{}", t + 1), "op": op}));
                            run_op(op, iso, &pend, &guards);
                            ev.lock().unwrap().push(json!({"k": "ret", "t": format!("t{}", t + 1), "r": "ok"}));
                        }
                        while LOCKS.with(|s| !s.borrow().is_empty()) {
                            unlock();
                        }
                    }));
                }
                let outcome = ow_sync::sched::run(bodies, choose);
                let ext: i64 = log::take().iter().filter(|e| e.kind == log::ADJUST && e.what == iso.raw).map(|e| e.value).sum();
                let mut events = std::mem::take(&mut *ev.lock().unwrap());
                events.push(json!({"k": "end", "t": "", "r": {"ext": {"A": ext}, "pend": {"A": pend.load(Ordering::SeqCst)}}}));
                guards.lock().unwrap().clear();
                Exec { events, outcome }
            },
            |e| emit(&mut f, &mut seen, e, prog),
        );
        total += runs;
        all &= complete;
    }
    writeln!(f, "{}", json!({"runs": total, "complete": all})).unwrap();
}

pub fn emit(f: &mut impl Write, seen: &mut std::collections::HashSet<String>, e: Exec, prog: &Value) {
    if e.outcome.deadlock || e.outcome.panics.iter().any(|p| p.is_some()) {
        writeln!(f, "{}", json!({"bad": {"deadlock": e.outcome.deadlock, "panics": e.outcome.panics,
            "schedule": e.outcome.choices.iter().map(|c| c.0).collect::<Vec<_>>(), "program": prog}}))
        .unwrap();
        return;
    }
    let line = serde_json::to_string(&e.events).unwrap();
    if seen.insert(line.clone()) {
        writeln!(f, "{{\"h\":{line}}}").unwrap();
    }
}

fn run_op(op: &Value, iso: Iso, pend: &Arc<AtomicI64>, guards: &Arc<Mutex<HashMap<String, ExternalMemoryGuard>>>) {
    let x = op["x"].as_str().unwrap_or("").to_string();
    match op["op"].as_str().unwrap() {
        "lock" => lock(iso, pend),
        "unlock" => unlock(),
        "new" => {
            let g = ExternalMemoryGuard::new(op["n"].as_i64().unwrap());
            guards.lock().unwrap().insert(x, g);
        }
        "adjust" => {
            let mut g = guards.lock().unwrap().remove(&x).unwrap();
            g.adjust(op["d"].as_i64().unwrap());
            guards.lock().unwrap().insert(x, g);
        }
        "drop" => {
            let g = guards.lock().unwrap().remove(&x).unwrap();
            drop(g);
        }
        x => panic!("{x}"),
    }
}
