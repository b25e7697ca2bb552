//! Limits (spec/Quota.tla, HeapLimit.tla, TimeoutGuard.tla, CpuEnforcer.tla).
use crate::gc::{emit, strings};
use crate::log::{self, Hand, Iso};
use mbt::{Exec, Rng, Sut};
use openworkers_runtime_v8::security::{
    CpuEnforcer, CustomAllocator, HeapLimitState, TimeoutGuard, install_heap_limit_callback,
};
use ow_sync::Arc;
use ow_sync::atomic::{AtomicBool, Ordering};
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::ffi::c_void;
use std::io::Write;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn ow_alloc(a: *const v8::Allocator, n: usize, zero: i32) -> *mut u8;
    fn ow_free(a: *const v8::Allocator, p: *mut u8, n: usize);
}

// ---------------------------------------------------------------- array buffers
struct Alloc {
    handle: v8::UniqueRef<v8::Allocator>,
    known: Arc<CustomAllocator>,
    flag: Arc<AtomicBool>,
}
impl Alloc {
    fn new(max: usize) -> Self {
        let flag = Arc::new(AtomicBool::new(false));
        let known = CustomAllocator::new(max, flag.clone());
        Self { handle: known.clone().into_v8_allocator(), known, flag }
    }
    fn ptr(&self) -> *const v8::Allocator {
        &*self.handle
    }
}

/// Every byte of s is b.
fn all(s: &[u8], b: u8) -> bool {
    s.is_empty()
        || s[0] == b && unsafe { libc::memcmp(s.as_ptr().cast(), s.as_ptr().add(1).cast(), s.len() - 1) } == 0
}

struct Quota {
    a: Alloc,
    unit: usize,
    bufs: HashMap<String, (usize, usize, u8)>,
    tag: u8,
}

impl Sut for Quota {
    fn step(&mut self, act: &Value) -> Value {
        let x = act["x"].as_str().unwrap_or("").to_string();
        let mut res = "ok";
        match act["op"].as_str().unwrap() {
            "alloc" => {
                // from a billion on: as far below the largest number as below two billion
                let n = match act["n"].as_u64().unwrap() as usize {
                    n if n >= 1_000_000_000 => usize::MAX - (2_000_000_000 - n),
                    n => n * self.unit,
                };
                let zero = act["zero"].as_bool().unwrap();
                let p = unsafe { ow_alloc(self.a.ptr(), n, zero as i32) };
                if p.is_null() {
                    res = "refused";
                } else {
                    let s = unsafe { std::slice::from_raw_parts_mut(p, n) };
                    if zero && !all(s, 0) {
                        res = "not zeroed";
                    }
                    self.tag = self.tag % 250 + 1;
                    unsafe { std::ptr::write_bytes(p, self.tag, n) };
                    self.bufs.insert(x, (p as usize, n, self.tag));
                }
            }
            "free" => {
                let (p, n, _) = self.bufs.remove(&x).unwrap();
                unsafe { ow_free(self.a.ptr(), p as *mut u8, n) };
            }
            "clear" => self.a.flag.store(false, Ordering::SeqCst),
            x => panic!("{x}"),
        }
        for (p, n, tag) in self.bufs.values() {
            let s = unsafe { std::slice::from_raw_parts(*p as *const u8, *n) };
            if !all(s, *tag) {
                res = "another buffer changed";
            }
        }
        let used = self.a.known.current_usage();
        json!({
            "res": res,
            "used": if used % self.unit == 0 { json!(used / self.unit) } else { json!(format!("{used} bytes")) },
            "hit": self.a.flag.load(Ordering::SeqCst),
        })
    }
    fn finish(&mut self) -> Value {
        for (p, n, _) in std::mem::take(&mut self.bufs).into_values() {
            unsafe { ow_free(self.a.ptr(), p as *mut u8, n) };
        }
        let known = self.a.known.clone();
        let a = std::mem::replace(&mut self.a, Alloc::new(0));
        let used = known.current_usage();
        drop(a);
        // ours is the only reference left
        if used != 0 || Arc::strong_count(&known) != 1 {
            return json!({"bad": {"used": used, "references": Arc::strong_count(&known)}});
        }
        Value::Null
    }
}

pub fn quota(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| {
        let unit = cfg["unit"].as_u64().unwrap() as usize;
        Box::new(Quota {
            a: Alloc::new(cfg["max"].as_u64().unwrap() as usize * unit),
            unit,
            bufs: HashMap::new(),
            tag: 0,
        })
    });
}

pub fn quota_conc(input: &Value, out: &str) {
    mbt::watchdog(out.to_string(), 60);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut rng = Rng(input["seed"].as_u64().unwrap_or(1));
    let (mut total, mut all) = (0, true);
    for prog in input["programs"].as_array().unwrap() {
        let mut seen = std::collections::HashSet::new();
        let (runs, complete) = mbt::explore(
            input["preempt"].as_u64().unwrap() as usize,
            input["limit"].as_u64().unwrap() as usize,
            input["random"].as_u64().unwrap() as usize,
            &mut rng,
            |choose| {
                let a = Alloc::new(10);
                let ptr = a.ptr() as usize;
                let bufs: Arc<Mutex<HashMap<String, (usize, usize)>>> = Default::default();
                let ev = Arc::new(Mutex::new(Vec::new()));
                let run = move |op: &Value, bufs: &Mutex<HashMap<String, (usize, usize)>>| {
                    let x = op["x"].as_str().unwrap().to_string();
                    if op["op"] == "alloc" {
                        let n = op["n"].as_u64().unwrap() as usize;
                        let p = unsafe { ow_alloc(ptr as *const _, n, op["zero"].as_bool().unwrap() as i32) };
                        if p.is_null() {
                            return "refused";
                        }
                        bufs.lock().unwrap().insert(x, (p as usize, n));
                    } else {
                        let (p, n) = bufs.lock().unwrap().remove(&x).unwrap();
                        unsafe { ow_free(ptr as *const _, p as *mut u8, n) };
                    }
                    "ok"
                };
                for op in prog["before"].as_array().unwrap() {
                    ev.lock().unwrap().push(json!({"k": "call", "t": "t0", "op": op}));
                    let r = run(op, &bufs);
                    ev.lock().unwrap().push(json!({"k": "ret", "t": "t0", "r": r}));
                }
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
                for (t, ops) in prog["threads"].as_array().unwrap().iter().enumerate() {
                    let (ops, ev, bufs) = (ops.clone(), ev.clone(), bufs.clone());
                    bodies.push(Box::new(move || {
                        for op in ops.as_array().unwrap() {
                            if op["op"] == "free" && !bufs.lock().unwrap().contains_key(op["x"].as_str().unwrap()) {
                                continue; // its allocation was refused
                            }
                            ev.lock().unwrap().push(json!({"k": "call", "t": format!("t{}", t + 1), "op": op}));
                            let r = run(op, &bufs);
                            ev.lock().unwrap().push(json!({"k": "ret", "t": format!("t{}", t + 1), "r": r}));
                        }
                    }));
                }
                let outcome = ow_sync::sched::run(bodies, choose);
                let mut events = std::mem::take(&mut *ev.lock().unwrap());
                events.push(json!({"k": "end", "t": "", "r": {
                    "used": a.known.current_usage() as i32, "hit": a.flag.load(Ordering::SeqCst)}}));
                for (p, n) in std::mem::take(&mut *bufs.lock().unwrap()).into_values() {
                    unsafe { ow_free(ptr as *const _, p as *mut u8, n) };
                }
                Exec { events, outcome }
            },
            |e| emit(&mut f, &mut seen, e, prog),
        );
        total += runs;
        all &= complete;
    }
    writeln!(f, "{}", json!({"runs": total, "complete": all})).unwrap();
}

// ---------------------------------------------------------------- the heap
type Callback = unsafe extern "C" fn(*mut c_void, usize, usize) -> usize;
struct Near {
    names: Vec<String>,
    flag: HashMap<String, Arc<AtomicBool>>,
    state: HashMap<String, Box<HeapLimitState>>,
    call: HashMap<String, (usize, usize)>,
}

fn isolates(names: &[String]) -> HashMap<String, Iso> {
    static ALL: OnceLock<Mutex<HashMap<String, Iso>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    names.iter().map(|n| (n.clone(), *all.entry(n.clone()).or_insert_with(log::isolate))).collect()
}

impl Sut for Near {
    fn step(&mut self, act: &Value) -> Value {
        let i = act["i"].as_str().unwrap();
        log::take();
        let mut room = false;
        match act["op"].as_str().unwrap() {
            "near" => {
                let cur = act["cur"].as_u64().unwrap() as usize * 1024 * 1024;
                let (f, d) = self.call[i];
                let f: Callback = unsafe { std::mem::transmute(f) };
                room = unsafe { f(d as *mut c_void, cur, cur / 2) } > cur;
            }
            "clear" => self.flag[i].store(false, Ordering::SeqCst),
            x => panic!("{x}"),
        }
        let isos = isolates(&self.names);
        let log = log::take();
        let ended = |n: &String| log.iter().any(|e| e.kind == log::TERMINATE && e.what == isos[n].raw);
        let each = |f: &dyn Fn(&String) -> Value| self.names.iter().map(|n| (n.clone(), f(n))).collect::<Map<_, _>>();
        json!({
            "room": room,
            "ended": each(&|n| json!(ended(n))),
            "hit": each(&|n| json!(self.flag[n].load(Ordering::SeqCst))),
            "n": each(&|n| json!(self.state[n].invocation_count.load(Ordering::SeqCst))),
        })
    }
    fn finish(&mut self) -> Value {
        for i in isolates(&self.names).values() {
            unsafe { (*i.isolate).cancel_terminate_execution() };
        }
        // V8 keeps the callbacks: so must their data
        for s in std::mem::take(&mut self.state).into_values() {
            Box::leak(s);
        }
        Value::Null
    }
}

pub fn near(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| {
        let names = strings(&cfg["isolates"]);
        let isos = isolates(&names);
        let mut s = Near { names, flag: HashMap::new(), state: HashMap::new(), call: HashMap::new() };
        for n in &s.names {
            let flag = Arc::new(AtomicBool::new(false));
            log::take();
            let state = unsafe { install_heap_limit_callback(&mut *isos[n].isolate, flag.clone(), 64 << 20) };
            let e = *log::take().iter().find(|e| e.kind == log::NEAR_LIMIT).unwrap();
            s.call.insert(n.clone(), (e.what, e.value as usize));
            s.flag.insert(n.clone(), flag);
            s.state.insert(n.clone(), state);
        }
        Box::new(s)
    });
}

// ---------------------------------------------------------------- wall clock
fn millis(k: &Value, unit: u64) -> u64 {
    match k.as_u64().unwrap() {
        0 => 0,
        k => k * unit - unit / 2,
    }
}

struct Wall {
    unit: u64,
    names: Vec<String>,
    isos: Vec<String>,
    guards: HashMap<String, TimeoutGuard>,
    start: Instant,
    ticks: u64,
    distant: usize,
}
/// Limits that are not reached: also what is left of them in fewer bits is short.
const DISTANT: [u64; 6] = [u64::MAX, (1 << 16) + 1, (1 << 32) + 1, (1 << 31) + 3, 1_000_000_007, (1 << 54) + 20];

fn ended(log: &[log::Entry], iso: &Iso) -> usize {
    log.iter().filter(|e| e.kind == log::TERMINATE && e.what == iso.raw).count()
}

impl Sut for Wall {
    fn step(&mut self, act: &Value) -> Value {
        let isos = isolates(&self.isos);
        let mut late = false;
        match act["op"].as_str().unwrap() {
            "new" => {
                let h = unsafe { (*isos[act["i"].as_str().unwrap()].isolate).thread_safe_handle() };
                let k = &act["k"];
                let ms = if k.as_u64() == Some(99) { 
                    self.distant += 1;
                    DISTANT[self.distant % DISTANT.len()]
                } else { millis(k, self.unit) };
                self.guards.insert(act["x"].as_str().unwrap().into(), TimeoutGuard::new(h, ms));
            }
            "drop" => {
                let t = Instant::now();
                drop(self.guards.remove(act["x"].as_str().unwrap()));
                late = t.elapsed() > Duration::from_millis(self.unit / 2);
            }
            "tick" => {
                self.ticks += 1;
                let until = self.start + Duration::from_millis(self.unit * self.ticks);
                std::thread::sleep(until.saturating_duration_since(Instant::now()));
            }
            x => panic!("{x}"),
        }
        let log = log::take();
        let mut r = json!({
            "hit": self.names.iter().map(|n| (n.clone(), json!(self.guards.get(n).is_some_and(|g| g.was_triggered())))).collect::<Map<_, _>>(),
            "ended": self.isos.iter().map(|n| (n.clone(), json!(ended(&log, &isos[n])))).collect::<Map<_, _>>(),
        });
        if late {
            r["late"] = json!("dropping the guard waited");
        }
        r
    }
    fn finish(&mut self) -> Value {
        self.guards.clear();
        let isos = isolates(&self.isos);
        std::thread::sleep(Duration::from_millis(2));
        let log = log::take();
        let n: usize = isos.values().map(|i| ended(&log, i)).sum();
        for i in isos.values() {
            unsafe { (*i.isolate).cancel_terminate_execution() };
        }
        if n > 0 { json!({"bad": "terminated after the guard was gone"}) } else { Value::Null }
    }
}

static DISTANTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn wall(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| {
        let isos = strings(&cfg["isolates"]);
        isolates(&isos);
        log::take();
        Box::new(Wall {
            unit: cfg["unit"].as_u64().unwrap(),
            names: strings(&cfg["guards"]),
            isos,
            guards: HashMap::new(),
            start: Instant::now(),
            ticks: 0,
            distant: DISTANTS.fetch_add(1, std::sync::atomic::Ordering::SeqCst),
        })
    });
}

// ---------------------------------------------------------------- CPU
fn cpu_now() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

fn burn(unit: u64) {
    let until = cpu_now() + Duration::from_millis(unit);
    while cpu_now() < until {}
}

struct Held(CpuEnforcer);
unsafe impl Send for Held {}
impl std::ops::Deref for Held {
    type Target = CpuEnforcer;
    fn deref(&self) -> &CpuEnforcer {
        &self.0
    }
}

struct Cpu {
    unit: u64,
    /// units burnt when all burn
    all: u64,
    names: Vec<String>,
    hands: HashMap<String, Hand>,
    live: Arc<Mutex<HashMap<String, Held>>>,
    burnt: HashMap<String, u64>,
}

impl Sut for Cpu {
    fn step(&mut self, act: &Value) -> Value {
        let isos = isolates(&self.names);
        let t = act["t"].as_str().unwrap_or(&self.names[0]).to_string();
        let hand = self.hands.get(&t).unwrap_or(self.hands.values().next().unwrap());
        let live = self.live.clone();
        let x = act["x"].as_str().unwrap_or("").to_string();
        let unit = self.unit;
        match act["op"].as_str().unwrap() {
            "new" => {
                let h = unsafe { (*isos[&x].isolate).thread_safe_handle() };
                let ms = millis(&act["k"], unit);
                hand.run(move || {
                    if let Some(e) = CpuEnforcer::new(h, ms) {
                        live.lock().unwrap().insert(x, Held(e));
                    }
                });
            }
            "newall" => {
                for x in &self.names {
                    let h = unsafe { (*isos[x].isolate).thread_safe_handle() };
                    let (ms, live, y) = (millis(&act["k"], unit), live.clone(), x.clone());
                    self.hands[x].run(move || {
                        if let Some(e) = CpuEnforcer::new(h, ms) {
                            live.lock().unwrap().insert(y, Held(e));
                        }
                    });
                }
            }
            "dropall" => {
                for x in &self.names {
                    let (live, y) = (live.clone(), x.clone());
                    self.hands[x].run(move || drop(live.lock().unwrap().remove(&y)));
                }
            }
            "drop" => hand.run(move || drop(live.lock().unwrap().remove(&x))),
            "reset" => {
                let ms = millis(&act["k"], unit);
                hand.run(move || live.lock().unwrap()[&x].reset(ms).unwrap());
            }
            "sleep" => std::thread::sleep(Duration::from_millis(unit * 3 / 2)),
            "burn" => {
                // this thread's CPU clock advances in whole units, counted from its first one
                let n = self.burnt.entry(t).or_default();
                *n += 1;
                hand.run(move || burn(unit));
            }
            "burnall" => {
                for (t, _) in &self.hands {
                    *self.burnt.entry(t.clone()).or_default() += 1;
                }
                // ready first: what they burn at the same time ends at the same time
                let (gate, all) = (Arc::new(std::sync::Barrier::new(self.hands.len())), self.all);
                // whoever handles the limits is busy meanwhile (it logs)
                let _busy = std::io::stderr().lock();
                std::thread::scope(|sc| {
                    for h in self.hands.values() {
                        let gate = gate.clone();
                        sc.spawn(move || h.run(move || {
                            gate.wait();
                            burn(unit * all)
                        }));
                    }
                });
            }
            x => panic!("{x}"),
        }
        // the signal is handled on a thread of its own
        let mut log = log::take();
        if act["op"].as_str().unwrap().starts_with("burn") {
            let all = act["op"] == "burnall";
            for i in 0..(if all { 200 } else { 4 }) {
                if i >= 4 && self.live.lock().unwrap().values().all(|e| e.was_terminated()) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
                log.extend(log::take());
            }
        }
        let live = self.live.lock().unwrap();
        let each = |f: &dyn Fn(&String) -> Value| self.names.iter().map(|n| (n.clone(), f(n))).collect::<Map<_, _>>();
        json!({
            "live": each(&|n| json!(live.contains_key(n))),
            "hit": each(&|n| json!(live.get(n).is_some_and(|e| e.was_terminated()))),
            "ended": each(&|n| json!(ended(&log, &isos[n]))),
        })
    }
    fn finish(&mut self) -> Value {
        self.live.lock().unwrap().clear();
        for i in isolates(&self.names).values() {
            unsafe { (*i.isolate).cancel_terminate_execution() };
        }
        Value::Null
    }
}

pub fn cpu(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| {
        let names = strings(&cfg["enforcers"]);
        isolates(&names);
        log::take();
        Box::new(Cpu {
            unit: cfg["unit"].as_u64().unwrap(),
            all: cfg["all"].as_u64().unwrap_or(1),
            hands: strings(&cfg["threads"]).into_iter().map(|t| (t, Hand::new())).collect(),
            names,
            live: Default::default(),
            burnt: HashMap::new(),
        })
    });
}
