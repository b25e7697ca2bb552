//! CpuTimer behind spec/CpuTime.tla, on clocks the check moves.
use crate::log::Hand;
use mbt::Sut;
use openworkers_runtime_v8::security::{CpuTimer, get_thread_cpu_time};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Clocks {
    cpu: HashMap<String, (i64, i64)>,
    idle: (i64, i64),
    dead: HashMap<String, bool>,
}

fn plus(a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    let n = a.1 + b.1;
    (a.0 + b.0 + n / 1_000_000_000, n % 1_000_000_000)
}

impl Clocks {
    fn read(&self, t: &str, id: ow_libc::clockid_t) -> Option<(i64, i64)> {
        if self.dead.get(t) == Some(&true) {
            return None;
        }
        let all = self.cpu.values().fold((0, 0), |a, b| plus(a, *b));
        Some(match id {
            ow_libc::CLOCK_THREAD_CPUTIME_ID => self.cpu.get(t).copied().unwrap_or_default(),
            ow_libc::CLOCK_PROCESS_CPUTIME_ID => all,
            _ => plus(plus(all, self.idle), (1_700_000_000, 5)),
        })
    }
}

struct Sys {
    clocks: Arc<Mutex<Clocks>>,
    hands: HashMap<String, Hand>,
    timers: Arc<Mutex<HashMap<String, CpuTimer>>>,
}

fn pair(v: &Value) -> (i64, i64) {
    (v[0].as_i64().unwrap(), v[1].as_i64().unwrap())
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let t = a["t"].as_str().unwrap_or("").to_string();
        let x = a["x"].as_str().unwrap_or("").to_string();
        let timers = self.timers.clone();
        let mut time = json!([]);
        match a["op"].as_str().unwrap() {
            "work" => {
                let mut c = self.clocks.lock().unwrap();
                let e = c.cpu.entry(t).or_default();
                *e = plus(*e, pair(&a["d"]));
            }
            "wait" => {
                let mut c = self.clocks.lock().unwrap();
                c.idle = plus(c.idle, pair(&a["d"]));
            }
            o @ ("break" | "mend") => {
                self.clocks.lock().unwrap().dead.insert(t, o == "break");
            }
            "start" => self.hands[&t].run(move || {
                timers.lock().unwrap().insert(x, CpuTimer::start());
            }),
            "read" => {
                let d = self.hands[&t].run(move || timers.lock().unwrap()[&x].elapsed());
                time = json!([d.as_secs(), d.subsec_nanos()]);
            }
            "now" => {
                if let Some(d) = self.hands[&t].run(get_thread_cpu_time) {
                    time = json!([d.as_secs(), d.subsec_nanos()]);
                }
            }
            x => panic!("{x}"),
        }
        json!({"time": time})
    }
}

pub fn replay(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| {
        let clocks = Arc::new(Mutex::new(Clocks::default()));
        let mut hands = HashMap::new();
        for t in cfg["threads"].as_array().unwrap() {
            let t = t.as_str().unwrap().to_string();
            let hand = Hand::new();
            let (c, name) = (clocks.clone(), t.clone());
            hand.run(move || {
                ow_libc::set_clock(Some(Box::new(move |id| c.lock().unwrap().read(&name, id))))
            });
            hands.insert(t, hand);
        }
        Box::new(Sys { clocks, hands, timers: Default::default() })
    });
}
