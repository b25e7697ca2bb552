//! The queue of handles to destroy (spec/Deferred.tla).
use crate::gc::{emit, strings, world};
use crate::log;
use mbt::{Exec, Rng, Sut};
use openworkers_runtime_v8::gc::DeferredDestructionQueue;
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Mutex, OnceLock};

type Global = v8::Global<v8::Object>;
struct Movable(Global);
unsafe impl Send for Movable {}
impl Movable {
    fn take(self) -> Global {
        self.0
    }
}

/// New handles of the isolate this thread has entered, with what V8 knows them by.
fn handles(n: usize) -> Vec<(usize, Movable)> {
    static ISO: OnceLock<log::Iso> = OnceLock::new();
    let iso = ISO.get_or_init(log::isolate);
    log::take();
    let isolate = unsafe { &mut *iso.isolate };
    let scope = std::pin::pin!(v8::HandleScope::new(isolate));
    let scope = &mut scope.init();
    let context = v8::Context::new(scope, Default::default());
    let scope = &mut v8::ContextScope::new(scope, context);
    (0..n)
        .map(|_| {
            let obj = v8::Object::new(scope);
            log::take();
            let g = v8::Global::new(scope, obj);
            let what = log::take().iter().find(|e| e.kind == log::GLOBAL_NEW).unwrap().what;
            (what, Movable(g))
        })
        .collect()
}

struct Sys {
    queues: HashMap<String, Arc<DeferredDestructionQueue>>,
    names: Vec<String>,
    hs: Vec<String>,
    threads: HashMap<i64, String>,
    spare: Vec<(usize, Movable)>,
    waits: HashMap<usize, String>,
    /// how many handles each of the specification stands for
    many: usize,
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let t = a["t"].as_str().unwrap();
        let qn = a["q"].as_str().unwrap().to_string();
        log::take();
        let hand = &world().hands[t];
        match a["op"].as_str().unwrap() {
            "defer" => {
                let mut hs = Vec::new();
                for _ in 0..self.many {
                    let (what, h) = self.spare.pop().unwrap_or_else(|| {
                        self.spare = handles(40.max(self.many));
                        self.spare.pop().unwrap()
                    });
                    self.waits.insert(what, a["h"].as_str().unwrap().into());
                    hs.push(h);
                }
                log::take();
                let q = self.queues[&qn].clone();
                hand.run(move || hs.into_iter().for_each(|h| q.defer(h.take())));
            }
            "process" => {
                let q = self.queues[&qn].clone();
                hand.run(move || q.process_all());
            }
            "dropq" => {
                let q = self.queues.remove(&qn).unwrap();
                hand.run(move || drop(q));
            }
            "newq" => {
                self.queues.insert(qn, Arc::new(hand.run(DeferredDestructionQueue::new)));
            }
            x => panic!("{x}"),
        }
        let mut gone: Map<String, Value> = self.hs.iter().map(|h| (h.clone(), json!("no"))).collect();
        for e in log::take() {
            if e.kind == log::GLOBAL_RESET {
                let who = self.threads.get(&e.thread).cloned().unwrap_or("?".into());
                match self.waits.remove(&e.what) {
                    Some(h) => gone.insert(h, json!(who)),
                    None => gone.insert("?".into(), json!(who)), // twice, or not ours
                };
            }
        }
        for (h, g) in &mut gone {
            if *g != json!("no") && self.many > 1 && self.waits.values().any(|x| x == h) {
                *g = json!("some of them");
            }
        }
        let many = self.many as u64;
        let get = |f: &dyn Fn(&DeferredDestructionQueue) -> Value, none: Value| {
            self.names
                .iter()
                .map(|n| (n.clone(), self.queues.get(n).map(|q| f(q)).unwrap_or(none.clone())))
                .collect::<Map<_, _>>()
        };
        json!({
            "gone": gone,
            "len": get(&|q| if q.len() % many == 0 { json!(q.len() / many) } else { json!(format!("{} handles", q.len())) }, json!(0)),
            "pending": get(&|q| if q.has_pending() == q.is_empty() { json!("contradiction") } else { json!(q.has_pending()) }, json!(false)),
        })
    }
}

pub fn replay(input: &Value, out: &str) {
    world();
    mbt::replay(input, out, &mut |cfg| {
        let names = strings(&cfg["queues"]);
        Box::new(Sys {
            queues: names.iter().map(|n| (n.clone(), Arc::new(DeferredDestructionQueue::new()))).collect(),
            names,
            hs: strings(&cfg["handles"]),
            threads: strings(&cfg["threads"])
                .into_iter()
                .map(|t| (world().hands[&t].run(log::this_thread), t))
                .collect(),
            spare: Vec::new(),
            waits: HashMap::new(),
            many: cfg["many"].as_u64().unwrap_or(1) as usize,
        })
    });
}

pub fn explore(input: &Value, out: &str) {
    mbt::watchdog(out.to_string(), 60);
    world();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rng = Rng(input["seed"].as_u64().unwrap_or(1));
    let (mut total, mut all) = (0, true);
    for prog in input["programs"].as_array().unwrap() {
        let mut seen = std::collections::HashSet::new();
        let n = prog["handles"].as_u64().unwrap() as usize;
        let (runs, complete) = mbt::explore(
            input["preempt"].as_u64().unwrap() as usize,
            input["limit"].as_u64().unwrap() as usize,
            input["random"].as_u64().unwrap() as usize,
            &mut rng,
            |choose| {
                let made = handles(n);
                let ids: Arc<HashMap<usize, usize>> = Arc::new(made.iter().enumerate().map(|(i, (w, _))| (*w, i + 1)).collect());
                let pool: Arc<Mutex<HashMap<usize, Movable>>> =
                    Arc::new(Mutex::new(made.into_iter().enumerate().map(|(i, (_, h))| (i + 1, h)).collect()));
                let q = Arc::new(DeferredDestructionQueue::new());
                let ev = Arc::new(Mutex::new(Vec::new()));
                let gone: Arc<Mutex<Vec<(i64, usize)>>> = Default::default();
                log::take();
                let absorb = {
                    let (gone, ids) = (gone.clone(), ids.clone());
                    Arc::new(move |me: i64| -> Vec<usize> {
                        let mut g = gone.lock().unwrap();
                        for e in log::take() {
                            if e.kind == log::GLOBAL_RESET {
                                g.push((e.thread, ids.get(&e.what).copied().unwrap_or(0)));
                            }
                        }
                        let mut mine: Vec<usize> = g.iter().filter(|x| x.0 == me).map(|x| x.1).collect();
                        g.retain(|x| x.0 != me);
                        mine.sort();
                        mine
                    })
                };
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for (t, ops) in prog["threads"].as_array().unwrap().iter().enumerate() {
                    let (ops, q, ev, pool, absorb) = (ops.clone(), q.clone(), ev.clone(), pool.clone(), absorb.clone());
                    bodies.push(Box::new(move || {
                        let me = log::this_thread();
                        for op in ops.as_array().unwrap() {
                            ev.lock().unwrap().push(json!({"k": "call", "t": format!("t{}", t + 1), "op": op}));
                            let r = match op["op"].as_str().unwrap() {
                                "defer" => {
                                    let h = pool.lock().unwrap().remove(&(op["h"].as_u64().unwrap() as usize)).unwrap();
                                    q.defer(h.take());
                                    json!(absorb(me))
                                }
                                "process" => {
                                    q.process_all();
                                    json!(absorb(me))
                                }
                                // beyond any length the specification's integers can hold: shown as -1
                                "len" => i32::try_from(q.len()).map(|n| json!(n)).unwrap_or(json!(-1)),
                                x => panic!("{x}"),
                            };
                            ev.lock().unwrap().push(json!({"k": "ret", "t": format!("t{}", t + 1), "r": r}));
                        }
                    }));
                }
                let outcome = ow_sync::sched::run(bodies, choose);
                let mut events = std::mem::take(&mut *ev.lock().unwrap());
                log::take();
                drop(q);
                let mut rest: Vec<usize> = log::take()
                    .iter()
                    .filter(|e| e.kind == log::GLOBAL_RESET)
                    .map(|e| ids.get(&e.what).copied().unwrap_or(0))
                    .collect();
                rest.sort();
                events.push(json!({"k": "end", "t": "", "r": rest}));
                Exec { events, outcome }
            },
            |e| emit(&mut f, &mut seen, e, prog),
        );
        total += runs;
        all &= complete;
    }
    writeln!(f, "{}", json!({"runs": total, "complete": all})).unwrap();
}
