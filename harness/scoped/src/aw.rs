//! AsyncWaiter behind spec/AsyncWaiter.tla.
use mbt::{Exec, Rng, Sut};
use openworkers_runtime_v8::AsyncWaiter;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};

struct Client {
    name: String,
    log: Arc<Mutex<Vec<String>>>,
}
impl Wake for Client {
    fn wake(self: Arc<Self>) {
        self.log.lock().unwrap().push(self.name.clone());
    }
}

struct Aw {
    w: AsyncWaiter,
    log: Arc<Mutex<Vec<String>>>,
    wakers: HashMap<String, Waker>,
}

impl Sut for Aw {
    fn step(&mut self, act: &Value) -> Value {
        let c = act["c"].as_str().unwrap().to_string();
        let log = self.log.clone();
        let mut ok = true;
        match act["op"].as_str().unwrap() {
            "try_lock" => {
                let w = self.wakers.entry(c.clone()).or_insert_with(|| {
                    Waker::from(Arc::new(Client { name: c, log }))
                });
                ok = self.w.try_lock(&mut Context::from_waker(w));
            }
            "unlock" => self.w.unlock(),
            "abandon" => {
                self.wakers.remove(&c);
            }
            x => panic!("{x}"),
        }
        let wakes = std::mem::take(&mut *self.log.lock().unwrap());
        json!({"ok": ok, "wakes": wakes, "free": self.w.is_free(), "qlen": self.w.queue_len()})
    }
}

pub fn replay(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |_| {
        Box::new(Aw { w: AsyncWaiter::new(), log: Default::default(), wakers: HashMap::new() })
    });
}

/// A crowd (spec/TurnCrowd.tla): numbered requests, in bulk.
struct Crowd {
    w: AsyncWaiter,
    log: Arc<Mutex<Vec<String>>>,
    next: u64,
}
impl Crowd {
    fn poll(&self, n: u64) -> bool {
        let w = Waker::from(Arc::new(Client { name: n.to_string(), log: self.log.clone() }));
        self.w.try_lock(&mut Context::from_waker(&w))
    }
}
impl Sut for Crowd {
    fn step(&mut self, act: &Value) -> Value {
        let k = act["k"].as_u64().unwrap();
        let (mut got, mut from, mut upto, mut woken) = (0, 0, 0, 0);
        let mut odd = Vec::new();
        for _ in 0..k {
            if act["op"] == "come" {
                got += self.poll(self.next) as u64;
                self.next += 1;
            } else {
                self.w.unlock();
            }
            for name in std::mem::take(&mut *self.log.lock().unwrap()) {
                let n: u64 = name.parse().unwrap();
                if woken == 0 {
                    from = n;
                } else if n != upto + 1 {
                    odd.push(n);
                }
                upto = n;
                woken += 1;
                got += self.poll(n) as u64;
            }
        }
        let mut r = json!({"got": got, "woken": woken, "from": from, "upto": upto,
                           "free": self.w.is_free(), "qlen": self.w.queue_len()});
        if !odd.is_empty() {
            odd.truncate(5);
            r["out_of_turn"] = json!(odd);
        }
        r
    }
}

pub fn crowd(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |_| {
        Box::new(Crowd { w: AsyncWaiter::new(), log: Default::default(), next: 1 })
    });
}

/// Threads that each try for the turn and release it if they got it.
pub fn explore(input: &Value, out: &str) {
    mbt::watchdog(out.to_string(), 60);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rng = Rng(input["seed"].as_u64().unwrap_or(1));
    let mut total = 0;
    let mut all = true;
    for prog in input["programs"].as_array().unwrap() {
        let mut seen = std::collections::HashSet::new();
        let (runs, complete) = mbt::explore(
            input["preempt"].as_u64().unwrap() as usize,
            input["limit"].as_u64().unwrap() as usize,
            input["random"].as_u64().unwrap() as usize,
            &mut rng,
            |choose| {
                let w = Arc::new(AsyncWaiter::new());
                let ev = Arc::new(Mutex::new(Vec::new()));
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for (t, ops) in prog.as_array().unwrap().iter().enumerate() {
                    let (w, ev) = (w.clone(), ev.clone());
                    let names: Vec<String> = ops
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|x| x.as_str().unwrap().to_string())
                        .collect();
                    bodies.push(Box::new(move || {
                        let t = format!("t{t}");
                        for name in names {
                            let call = |op: &str, f: &mut dyn FnMut() -> bool| -> bool {
                                ev.lock().unwrap().push(
                                    json!({"k": "call", "t": t, "op": {"op": op, "c": name}}),
                                );
                                WAKES.with(|w| w.borrow_mut().clear());
                                let ok = f();
                                let wakes = WAKES.with(|w| std::mem::take(&mut *w.borrow_mut()));
                                ev.lock().unwrap().push(
                                    json!({"k": "ret", "t": t, "r": {"ok": ok, "wakes": wakes}}),
                                );
                                ok
                            };
                            let waker = Waker::from(Arc::new(Tl(name.clone())));
                            if call("try_lock", &mut || w.try_lock(&mut Context::from_waker(&waker))) {
                                call("unlock", &mut || {
                                    w.unlock();
                                    true
                                });
                            }
                        }
                    }));
                }
                let outcome = ow_sync::sched::run(bodies, choose);
                let mut events = std::mem::take(&mut *ev.lock().unwrap());
                events.push(json!({"k": "end", "t": "", "r": {"free": w.is_free(), "qlen": w.queue_len()}}));
                Exec { events, outcome }
            },
            |e| {
                if e.outcome.deadlock || e.outcome.panics.iter().any(|p| p.is_some()) {
                    writeln!(f, "{}", json!({"bad": {"deadlock": e.outcome.deadlock, "panics": e.outcome.panics,
                        "schedule": e.outcome.choices.iter().map(|c| c.0).collect::<Vec<_>>(), "program": prog}})).unwrap();
                    return;
                }
                let line = serde_json::to_string(&e.events).unwrap();
                if seen.insert(line.clone()) {
                    writeln!(f, "{{\"h\":{line}}}").unwrap();
                }
            },
        );
        total += runs;
        all &= complete;
    }
    writeln!(f, "{}", json!({"runs": total, "complete": all})).unwrap();
}

thread_local! {
    static WAKES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Records the wake on the thread that delivers it.
struct Tl(String);
impl Wake for Tl {
    fn wake(self: Arc<Self>) {
        WAKES.with(|w| w.borrow_mut().push(self.0.clone()));
    }
}
