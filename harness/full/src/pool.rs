//! The isolate pool: each path on a thread of its own (the pool is the thread's), driven
//! by the steps of spec/Pool.tla.
use crate::rt::{Answer, Host, Ops, http_request, limits, settle};
use mbt::Sut;
use mbt::serde_json::{Value, json};
use openworkers_core::*;
use openworkers_runtime_v8::{
    PinnedExecuteRequest, PinnedPoolConfig, execute_pinned, get_local_pool_stats, get_pinned_pool_stats, init_pinned_pool,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::mpsc as smpsc;
use std::sync::{Arc, Mutex};
use tokio::task::LocalSet;

#[derive(Default)]
struct Shared {
    host: Arc<Mutex<Host>>,
    /// (number of the handle, what the script said through it)
    said: Mutex<Vec<(u64, Value)>>,
    /// handles by address
    handles: Mutex<HashMap<usize, u64>>,
    /// request label -> handle told by on_warm_hit
    warm: Mutex<HashMap<String, u64>>,
}

struct Tagged(Ops, u64, Arc<Shared>);
impl OperationsHandler for Tagged {
    fn handle_fetch(&self, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        self.0.handle_fetch(r)
    }
    fn handle_binding_kv(&self, b: &str, op: KvOp) -> OpFuture<'_, KvResult> {
        self.0.handle_binding_kv(b, op)
    }
    fn handle_log(&self, level: LogLevel, message: String) {
        if std::env::var_os("OW_LOG").is_some() {
            eprintln!("[{level}] {message}");
        }
        if let Some(m) = message.strip_prefix('@') {
            let v = mbt::serde_json::from_str(m).unwrap_or(json!(message));
            self.2.said.lock().unwrap().push((self.1, v));
        }
    }
}

fn addr(h: &OperationsHandle) -> usize {
    Arc::as_ptr(h) as *const () as usize
}

struct In {
    rt: tokio::runtime::Runtime,
    local: LocalSet,
    sh: Arc<Shared>,
    flights: BTreeMap<String, tokio::task::JoinHandle<()>>,
    results: Rc<RefCell<Vec<Value>>>,
    /// request label -> handle it brought
    brought: HashMap<String, u64>,
    /// keeps every handle alive, so that addresses stay theirs
    kept: Vec<OperationsHandle>,
    stats: (usize, usize, usize),
    cfg: Value,
}

fn counts() -> (usize, usize, usize) {
    let s = get_pinned_pool_stats();
    (s.total_requests, s.cache_hits, s.cache_misses)
}

impl In {
    fn new(cfg: &Value) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        In {
            rt,
            local: LocalSet::new(),
            sh: Arc::default(),
            flights: BTreeMap::new(),
            results: Rc::default(),
            brought: HashMap::new(),
            kept: Vec::new(),
            stats: counts(),
            cfg: cfg.clone(),
        }
    }

    fn settle(&mut self) {
        self.rt.block_on(self.local.run_until(settle()));
    }

    fn begin(&mut self, op: &Value) {
        let r = op["r"].to_string();
        // a key: worker, version, and the environment it was made for if any
        let key = op["k"].as_str().unwrap().to_string();
        let (w, ve) = key.split_once('.').unwrap();
        let (v, e) = match ve.split_once('e') {
            Some((v, e)) => (v, Some(e.parse::<i64>().unwrap())),
            None => (ve, None),
        };
        let code = if w.starts_with("bad") {
            "throw new Error('bad')".to_string()
        } else {
            format!("const KEY = {};\n{}", json!(key), self.cfg["script"].as_str().unwrap())
        };
        let env = HashMap::from([("E".to_string(), e.unwrap_or(0).to_string())]);
        let tag = self.kept.len() as u64;
        let ops: OperationsHandle = Arc::new(Tagged(Ops(self.sh.host.clone()), tag, self.sh.clone()));
        self.sh.handles.lock().unwrap().insert(addr(&ops), tag);
        self.kept.push(ops.clone());
        self.brought.insert(r.clone(), tag);
        let (req, _) = http_request(&json!({"url": format!("http://w/{r}")}));
        let (ev, rx) = Event::fetch(req);
        let sh = self.sh.clone();
        sh.warm.lock().unwrap().remove(&r);
        let label = r.clone();
        let hit = Box::new(move |h: &OperationsHandle| {
            let t = sh.handles.lock().unwrap().get(&addr(h)).copied().unwrap_or(u64::MAX);
            sh.warm.lock().unwrap().insert(label, t);
        });
        let req = PinnedExecuteRequest {
            owner_id: op["o"].as_str().unwrap().to_string(),
            worker_id: w.to_string(),
            version: v.parse().unwrap(),
            script: Script::with_bindings(code, Some(env), vec![BindingInfo::new("CTL", BindingType::Kv)]),
            ops,
            task: ev,
            on_warm_hit: Some(hit),
            env_updated_at: e,
        };
        let results = self.results.clone();
        let (id, res2) = (op["r"].clone(), results.clone());
        let _g = self.rt.enter();
        self.local.spawn_local(async move {
            let v = match rx.await {
                Ok(x) if x.status == 200 => json!({"resp": id}),
                Ok(x) => json!({"resp": x.status}),
                Err(_) => json!({"resp": "none"}),
            };
            res2.borrow_mut().push(v);
        });
        let id = op["r"].clone();
        let task = self.local.spawn_local(async move {
            let x = execute_pinned(req).await;
            let v = match x {
                Ok(()) => "ok".to_string(),
                Err(TerminationReason::Other(s)) if s == "Pool at capacity" => "full".into(),
                Err(TerminationReason::CpuTimeLimit) => "cpu".into(),
                Err(TerminationReason::WallClockTimeout) => "wall".into(),
                Err(TerminationReason::MemoryLimit) => "mem".into(),
                Err(TerminationReason::Exception(_)) => "exc".into(),
                Err(e) => e.to_string(),
            };
            results.borrow_mut().push(json!({"exec": id, "v": v}));
        });
        self.flights.insert(r, task);
    }

    fn step(&mut self, op: &Value) -> Value {
        let r = op["r"].to_string();
        let mut told = json!("ok");
        match op["op"].as_str().unwrap() {
            "begin" => self.begin(op),
            "drop" => {
                if let Some(f) = self.flights.remove(&r) {
                    f.abort();
                }
            }
            // the host answers a call of the script, whoever made it and however late
            "answer" => {
                let id = format!("{}.{}", op["r"], op["n"]);
                let v = json!([op["r"], op["n"]]);
                let mut h = self.sh.host.lock().unwrap();
                let a = match op["k"].as_str().unwrap() {
                    "kv" => Answer::Kv(KvResult::Value(Some(v))),
                    k => {
                        let body = if k == "read" {
                            let (tx, rx) = tokio::sync::mpsc::channel(8);
                            h.bodies.insert(id.clone(), tx);
                            ResponseBody::Stream(rx)
                        } else {
                            ResponseBody::Bytes(v.to_string().into())
                        };
                        let headers = vec![("x-id".to_string(), v.to_string())];
                        Answer::Http(Ok(HttpResponse { status: 200, headers, body }))
                    }
                };
                let asked = if op["k"] == json!("kv") { h.ctl.remove(&id) } else { h.pending.remove(&id) };
                match asked {
                    Some(tx) => drop(tx.send(a)),
                    // what an ended request left open may have been given up
                    None if self.flights.get(&r).is_none_or(|f| f.is_finished()) => {}
                    None => told = json!("not asked"),
                }
            }
            "chunk" => {
                let h = self.sh.host.lock().unwrap();
                let v = json!([op["r"], op["n"]]).to_string();
                drop(h.bodies[&format!("{}.{}", op["r"], op["n"])].try_send(Ok(v.into())));
            }
            // its time passes (real time: the limit is kept by a thread of its own)
            "wall" => {
                let ms = self.cfg["limits"]["wall_ms"].as_u64().unwrap();
                std::thread::sleep(std::time::Duration::from_millis(ms + ms / 2));
            }
            "tick" => {
                let n = op["n"].as_u64().unwrap();
                self.rt.block_on(self.local.run_until(async move {
                    tokio::time::advance(std::time::Duration::from_millis(n)).await;
                }));
            }
            _ => {
                let tx = self.sh.host.lock().unwrap().ctl.remove(&r);
                match tx {
                    Some(tx) => drop(tx.send(Answer::Kv(KvResult::Value(Some(op.clone()))))),
                    None => told = json!("deaf"),
                }
            }
        }
        self.settle();
        let mut out: Vec<Value> = Vec::new();
        for (tag, v) in std::mem::take(&mut *self.sh.said.lock().unwrap()) {
            if v[0] != json!("start") {
                out.push(v);
                continue;
            }
            let l = v[1].as_str().unwrap().to_string();
            let warm = self.sh.warm.lock().unwrap().get(&l).copied();
            let mut x = json!({"start": l.parse::<u64>().unwrap(), "k": v[2], "n": v[3], "warm": warm.is_some()});
            let want = warm.or(self.brought.get(&l).copied());
            if want != Some(tag) {
                x["ops"] = json!([want, tag]);
            }
            if v[4] != json!(v[2].as_str().unwrap().split_once('e').map_or("0", |p| p.1)) {
                x["env"] = v[4].clone();
            }
            out.push(x);
        }
        let mut rest = std::mem::take(&mut *self.results.borrow_mut());
        // a request refused or not loaded has no response
        let dead = rest.iter().any(|x| x["v"] == "full" || x["v"] == "exc");
        if dead {
            rest.retain(|x| x["resp"] != json!("none"));
        }
        rest.sort_by_key(|x| x["resp"].is_null());
        out.append(&mut rest);
        if self.cfg["plain"] == json!(true) {
            out.retain(|x| x["start"].is_null());
            out.sort_by_key(|x| match x[0].as_str() {
                Some("got") => (0, x[1].as_u64(), x[2].as_u64()),
                _ => (1, None, None),
            });
            let mut o = json!({"out": out});
            if told != json!("ok") {
                o["told"] = told;
            }
            return o;
        }
        let now = counts();
        let d = (now.0 - self.stats.0, now.1 - self.stats.1, now.2 - self.stats.2);
        self.stats = now;
        let begin = op["op"] == json!("begin");
        let hit = match d {
            (0, 0, 0) if !begin => json!("none"),
            (1, 0, 0) if begin => json!("none"),
            (1, 1, 0) if begin => json!("hit"),
            (1, 0, 1) if begin => json!("miss"),
            _ => json!([d.0, d.1, d.2]),
        };
        let st = get_local_pool_stats();
        let (t, u) = st.as_ref().map_or((0, 0), |s| (s.total, s.in_use));
        let mut o = json!({"out": out, "hit": hit, "total": t, "inuse": u});
        if st.is_some_and(|s| s.capacity as u64 != self.cfg["iso"].as_u64().unwrap()) {
            o["capacity"] = json!("wrong");
        }
        if told != json!("ok") {
            o["told"] = told;
        }
        o
    }

    fn finish(mut self) -> Value {
        for (_, f) in std::mem::take(&mut self.flights) {
            f.abort();
        }
        self.settle();
        let st = get_local_pool_stats();
        let v = match st {
            Some(s) if s.in_use > 0 => json!({"bad": "still in use after everything was given up"}),
            _ => Value::Null,
        };
        self.results.borrow_mut().clear();
        let In { rt, local, .. } = self;
        {
            let _g = rt.enter();
            drop(local);
        }
        drop(rt);
        v
    }
}

enum Msg {
    Step(Value),
    Finish,
}

/// The thread a path runs on.
struct Pool {
    tx: smpsc::Sender<Msg>,
    rx: smpsc::Receiver<Result<Value, String>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Pool {
    fn new(cfg: &Value) -> Self {
        let (tx, rx2) = smpsc::channel();
        let (tx2, rx) = smpsc::channel();
        let cfg = cfg.clone();
        let thread = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let mut sys = Some(In::new(&cfg));
                for m in rx2 {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match m {
                        Msg::Step(a) => sys.as_mut().unwrap().step(&a),
                        Msg::Finish => sys.take().unwrap().finish(),
                    }));
                    if tx2.send(r.map_err(|e| mbt::panic_text(&*e))).is_err() || sys.is_none() {
                        break;
                    }
                }
            })
            .unwrap();
        Pool { tx, rx, thread: Some(thread) }
    }
    fn ask(&mut self, m: Msg) -> Value {
        self.tx.send(m).unwrap();
        match self.rx.recv() {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => panic!("{e}"),
            Err(_) => panic!("the thread of the pool is gone"),
        }
    }
}

impl Sut for Pool {
    fn step(&mut self, a: &Value) -> Value {
        self.ask(Msg::Step(a.clone()))
    }
    fn finish(&mut self) -> Value {
        let v = self.ask(Msg::Finish);
        if let Some(t) = self.thread.take() {
            // the pool ends with the thread
            if t.join().is_err() {
                return json!({"bad": "the end of the pool panics"});
            }
        }
        v
    }
}

pub fn replay(input: &Value, out: &str) {
    let cfg = &input["cfg"];
    let n = |k: &str| cfg[k].as_u64().unwrap() as usize;
    if let Some(m) = cfg["reuse"].as_u64() {
        // read once by the pool, before any request
        unsafe { std::env::set_var("CONTEXT_MAX_REUSES", m.to_string()) };
    }
    init_pinned_pool(PinnedPoolConfig {
        max_per_thread: n("iso"),
        max_per_owner: cfg["owner"].as_u64().filter(|x| *x > 0).map(|x| x as usize),
        max_concurrent_per_isolate: n("conc"),
        max_cached_contexts: n("cached"),
        limits: limits(cfg),
    });
    mbt::replay(input, out, &mut |cfg| Box::new(Pool::new(cfg)));
}
