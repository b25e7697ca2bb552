//! StreamManager behind spec/StreamManager.tla and spec/Pump.tla.
use bytes::Bytes;
use mbt::Sut;
use openworkers_runtime_v8::runtime::stream_manager::{StreamChunk, StreamManager};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use tokio::sync::mpsc;

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

type Fut = Pin<Box<dyn Future<Output = Value>>>;
struct InFlight {
    fut: Fut,
    flag: Arc<Flag>,
    waker: Waker,
}

/// The payload of chunk v: of a length that depends on it, if the configuration has sizes.
fn payload(v: u64, sizes: &[usize]) -> String {
    match sizes.is_empty() {
        true => format!("chunk-{v}"),
        false => {
            let t = format!("{v}-");
            let n = sizes[v as usize % sizes.len()];
            let mut t = t.repeat(n / t.len() + 1);
            t.truncate(n);
            t
        }
    }
}
thread_local! { static SIZES: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }
fn sizes(cfg: &Value) {
    let n = cfg["sizes"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
    SIZES.with(|s| *s.borrow_mut() = n.unwrap_or_default());
}
pub fn chunk(v: &Value) -> StreamChunk {
    match v["k"].as_str().unwrap() {
        "data" => StreamChunk::Data(Bytes::from(SIZES.with(|s| payload(v["v"].as_u64().unwrap(), &s.borrow())))),
        "done" => StreamChunk::Done,
        _ => StreamChunk::Error("the error".into()),
    }
}
pub fn show(c: StreamChunk) -> Value {
    match c {
        StreamChunk::Data(b) => {
            let t = String::from_utf8_lossy(&b).into_owned();
            let sized = SIZES.with(|s| s.borrow().clone());
            if !sized.is_empty() {
                return json!({"k": "data", "v": if t.len() < 5 {
                    json!(format!("{} bytes", t.len()))
                } else {
                    let v = t.split('-').next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
                    if payload(v, &sized) == t { json!(v) } else { json!(t) }
                }});
            }
            match t.strip_prefix("chunk-").and_then(|n| n.parse::<u64>().ok()) {
                Some(n) => json!({"k": "data", "v": n}),
                None => json!({"k": "data", "v": t}),
            }
        }
        StreamChunk::Done => json!({"k": "done", "v": 0}),
        StreamChunk::Error(e) if e == "the error" => json!({"k": "error", "v": 0}),
        StreamChunk::Error(e) => json!({"k": "error", "v": e}),
    }
}
pub fn kind(k: &str) -> Value {
    json!({"k": k, "v": 0})
}
/// Which kind of failure a message reports, by what distinguishes the callers' reactions.
fn write_result(r: Result<(), String>) -> Value {
    match r {
        Ok(()) => kind("ok"),
        Err(e) if e.contains("not found") => kind("notfound"),
        Err(e) if e.contains("full") => kind("full"),
        Err(_) => kind("closed"),
    }
}
fn read_result(r: Result<StreamChunk, String>) -> Value {
    match r {
        Ok(c) => show(c),
        Err(e) if e.contains("not found") => kind("notfound"),
        Err(_) => kind("broken"),
    }
}

struct Sm {
    m: Arc<StreamManager>,
    max: u64,
    flights: HashMap<String, InFlight>,
    taken: HashMap<u64, mpsc::Receiver<StreamChunk>>,
    /// The identifiers handed out for the streams 1, 2, .. of the specification, and all of them.
    ids: Vec<u64>,
    seen: std::collections::HashSet<u64>,
}

impl Sm {
    fn id(&self, i: u64) -> u64 {
        match self.ids.get(i.wrapping_sub(1) as usize) {
            Some(x) => *x,
            None => self.ids.iter().max().copied().unwrap_or(0) + i.saturating_sub(self.ids.len() as u64),
        }
    }
    fn create(&mut self) -> Value {
        let id = self.m.create_stream("url".into());
        if !self.seen.insert(id) {
            return json!({"k": "again", "v": id});
        }
        self.ids.push(id);
        json!({"k": "id", "v": self.ids.len()})
    }
    /// Many streams of other requests come and go.
    fn burst(&mut self, n: u64) -> Value {
        for _ in 0..n {
            let id = self.m.create_stream("url".into());
            if !self.seen.insert(id) {
                return json!({"k": "again", "v": id});
            }
            self.m.close_stream(id);
        }
        kind("ok")
    }
    fn start(&mut self, f: &str, fut: Fut) -> (Value, bool) {
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut x = InFlight { fut, flag, waker };
        match x.fut.as_mut().poll(&mut Context::from_waker(&x.waker)) {
            Poll::Ready(v) => (v, false),
            Poll::Pending => {
                self.flights.insert(f.to_string(), x);
                (kind("pending"), false)
            }
        }
    }
    /// Polls again; the flag says that it completed without having been woken.
    fn again(&mut self, f: &str) -> (Value, bool) {
        let x = self.flights.get_mut(f).unwrap();
        let woken = x.flag.0.swap(false, Ordering::SeqCst);
        match x.fut.as_mut().poll(&mut Context::from_waker(&x.waker)) {
            Poll::Ready(v) => {
                self.flights.remove(f);
                (v, !woken)
            }
            Poll::Pending => (kind("pending"), false),
        }
    }
}

impl Sm {
    fn observe(&self) -> Value {
        let m = &self.m;
        let ids = 1..=self.max;
        json!({
            "active": m.active_count(),
            "senders": ids.clone().map(|i| m.has_sender(self.id(i))).collect::<Vec<_>>(),
            "info": ids.map(|i| m.get_stream_info(self.id(i)).is_some()).collect::<Vec<_>>(),
        })
    }
}

impl Sut for Sm {
    fn step(&mut self, act: &Value) -> Value {
        let n = act["i"].as_u64().unwrap_or(0);
        let i = self.id(n);
        let f = act["f"].to_string();
        let m = self.m.clone();
        let (r, lost) = match act["op"].as_str().unwrap() {
            "create" => (self.create(), false),
            "burst" => (self.burst(act["n"].as_u64().unwrap()), false),
            "try_write" => (write_result(m.try_write_chunk(i, chunk(&act["c"]))), false),
            "write" => {
                let c = chunk(&act["c"]);
                self.start(&f, Box::pin(async move { write_result(m.write_chunk(i, c).await) }))
            }
            "read" => self.start(&f, Box::pin(async move { read_result(m.read_chunk(i).await) })),
            "poll_write" | "poll_read" => self.again(&f),
            "cancel_write" | "cancel_read" => {
                self.flights.remove(&f);
                (kind("ok"), false)
            }
            "close" => {
                m.close_stream(i);
                (kind("ok"), false)
            }
            "clear" => {
                m.clear();
                (kind("ok"), false)
            }
            "take" => match m.take_receiver(i) {
                Some(rx) => {
                    self.taken.insert(n, rx);
                    (kind("taken"), false)
                }
                None => (kind("notfound"), false),
            },
            "recv" => {
                use mpsc::error::TryRecvError::*;
                let r = match self.taken.get_mut(&n).unwrap().try_recv() {
                    Ok(c) => show(c),
                    Err(Empty) => kind("empty"),
                    Err(Disconnected) => kind("broken"),
                };
                (r, false)
            }
            "drop_taken" => {
                self.taken.remove(&n);
                (kind("ok"), false)
            }
            x => panic!("{x}"),
        };
        json!({"r": r, "lost": lost, "obs": self.observe()})
    }
}

pub fn replay(input: &Value, out: &str) {
    sizes(&input["cfg"]);
    mbt::replay(input, out, &mut |cfg| {
        Box::new(Sm {
            m: Arc::new(StreamManager::with_high_water_mark(cfg["cap"].as_u64().unwrap() as usize)),
            max: cfg["max"].as_u64().unwrap(),
            flights: HashMap::new(),
            taken: HashMap::new(),
            ids: Vec::new(),
            seen: Default::default(),
        })
    });
}

/// Request bodies through pump_request_body (spec/Pump.tla).
struct Pump {
    rt: tokio::runtime::Runtime,
    sm: Sm,
    bodies: HashMap<u64, mpsc::Sender<Result<Bytes, String>>>,
    cap: usize,
}
impl Pump {
    fn settle(&self) {
        self.rt.block_on(async {
            for _ in 0..64 {
                tokio::task::yield_now().await;
            }
        });
    }
}
impl Sut for Pump {
    fn step(&mut self, act: &Value) -> Value {
        let b = act["b"].as_u64().unwrap_or(0);
        let r = match act["op"].as_str().unwrap() {
            "pump" => {
                let (tx, rx) = mpsc::channel(self.cap);
                self.bodies.insert(b, tx);
                let _g = self.rt.enter();
                let id = self.sm.m.pump_request_body(rx);
                self.sm.ids.push(id);
                json!({"k": "id", "v": self.sm.ids.len()})
            }
            "send" => {
                let c = match chunk(&act["c"]) {
                    StreamChunk::Data(d) => Ok(d),
                    _ => Err("the error".to_string()),
                };
                match self.bodies[&b].try_send(c) {
                    Ok(()) => kind("ok"),
                    Err(mpsc::error::TrySendError::Full(_)) => kind("full"),
                    Err(_) => kind("closed"),
                }
            }
            "end" => {
                self.bodies.remove(&b);
                kind("ok")
            }
            _ => {
                let mut v = self.sm.step(act);
                self.settle();
                v["obs"] = self.sm.observe();
                return v;
            }
        };
        self.settle();
        json!({"r": r, "lost": false, "obs": self.sm.observe()})
    }
}
pub fn pump(input: &Value, out: &str) {
    sizes(&input["cfg"]);
    mbt::replay(input, out, &mut |cfg| {
        Box::new(Pump {
            rt: tokio::runtime::Builder::new_current_thread().build().unwrap(),
            sm: Sm {
                m: Arc::new(StreamManager::with_high_water_mark(cfg["cap"].as_u64().unwrap() as usize)),
                max: cfg["max"].as_u64().unwrap(),
                flights: HashMap::new(),
                taken: HashMap::new(),
            ids: Vec::new(),
            seen: Default::default(),
            },
            bodies: HashMap::new(),
            cap: cfg["body_cap"].as_u64().unwrap() as usize,
        })
    });
}
