//! A worker driven from inside and outside: the script asks its CTL binding for the next
//! command, the host answers the operations the script asks for, and the clock is paused.
use bytes::Bytes;
use mbt::serde_json::{Value, json};
use mbt::Sut;
use openworkers_core::*;
use openworkers_runtime_v8::{PinnedExecuteRequest, PinnedPoolConfig, Worker, execute_pinned, init_pinned_pool};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};
use tokio::task::LocalSet;

pub enum Answer {
    Http(Result<HttpResponse, String>),
    Storage(StorageResult),
    Kv(KvResult),
    Db(DatabaseResult),
    Ws(Result<WebSocketConnection, String>),
}

#[derive(Default)]
pub struct Host {
    /// what the script reported since the last look
    pub log: Vec<Value>,
    /// operations asked for and given up since the last look
    pub asked: Vec<Value>,
    pub pending: BTreeMap<String, oneshot::Sender<Answer>>,
    /// CTL requests waiting for a command, by worker
    pub ctl: BTreeMap<String, oneshot::Sender<Answer>>,
    pub bodies: HashMap<String, mpsc::Sender<Result<Bytes, String>>>,
    pub ws_in: HashMap<String, mpsc::UnboundedSender<WebSocketIncoming>>,
    pub ws_out: Vec<(String, mpsc::UnboundedReceiver<WebSocketOutgoing>)>,
    pub keep_logs: bool,
}

#[derive(Clone)]
pub struct Ops(pub Arc<Mutex<Host>>);

/// Notices an operation that is given up before it was answered.
struct Asked(Arc<Mutex<Host>>, String, bool);
impl Drop for Asked {
    fn drop(&mut self) {
        if !self.2 {
            let mut h = self.0.lock().unwrap();
            if self.1.starts_with("ctl ") {
                h.ctl.remove(&self.1[4..]);
            } else {
                h.pending.remove(&self.1);
                h.asked.push(json!({"gone": self.1}));
            }
        }
    }
}

impl Ops {
    fn ask(&self, key: String, what: Value) -> OpFuture<'static, Answer> {
        let (tx, rx) = oneshot::channel();
        {
            let mut h = self.0.lock().unwrap();
            if let Some(n) = key.strip_prefix("ctl ") {
                h.ctl.insert(n.to_string(), tx);
            } else {
                h.asked.push(what);
                h.pending.insert(key.clone(), tx);
            }
        }
        let guard = Asked(self.0.clone(), key, false);
        Box::pin(async move {
            let mut guard = guard;
            match rx.await {
                Ok(a) => {
                    guard.2 = true;
                    a
                }
                Err(_) => std::future::pending().await,
            }
        })
    }
}

/// The label of an operation: the last part of its URL or key.
fn label(url: &str) -> String {
    url.rsplit('/').next().unwrap_or("").to_string()
}

fn body_text(b: &RequestBody) -> Value {
    match b {
        RequestBody::None => Value::Null,
        RequestBody::Bytes(b) => json!(String::from_utf8_lossy(b)),
        RequestBody::Stream(_) => json!("stream"),
    }
}

/// Bytes as text: everything but printable characters as %XX.
pub fn pct(b: &[u8]) -> String {
    let mut s = String::new();
    for &x in b {
        if x > 0x20 && x < 0x7f && x != b'%' {
            s.push(x as char);
        } else {
            s.push_str(&format!("%{x:02X}"));
        }
    }
    s
}

fn request(kind: &str, r: &HttpRequest) -> Value {
    let h: BTreeMap<_, _> = r.headers.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
    json!({"ask": kind, "id": label(&r.url), "url": r.url, "method": r.method.as_str(),
           "headers": h, "body": body_text(&r.body), "pct": r.body.as_bytes().map(|b| pct(b))})
}

macro_rules! expect {
    ($f:expr, $p:pat => $e:expr, $other:expr) => {
        Box::pin(async move {
            match $f.await {
                $p => $e,
                _ => $other,
            }
        })
    };
}

impl OperationsHandler for Ops {
    fn handle_fetch(&self, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let f = self.ask(label(&r.url), request("fetch", &r));
        expect!(f, Answer::Http(x) => x, Err("bad answer".into()))
    }
    fn handle_binding_fetch(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let mut v = request("assets", &r);
        v["binding"] = json!(b);
        let f = self.ask(label(&r.url), v);
        expect!(f, Answer::Http(x) => x, Err("bad answer".into()))
    }
    fn handle_binding_worker(&self, b: &str, r: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> {
        let mut v = request("worker", &r);
        v["binding"] = json!(b);
        let f = self.ask(label(&r.url), v);
        expect!(f, Answer::Http(x) => x, Err("bad answer".into()))
    }
    fn handle_binding_storage(&self, b: &str, op: StorageOp) -> OpFuture<'_, StorageResult> {
        let (k, v) = match &op {
            StorageOp::Get { key } => (key.clone(), json!({"get": key})),
            StorageOp::Fetch { key } => (key.clone(), json!({"fetch": key})),
            StorageOp::Put { key, body } => (key.clone(), json!({"put": key, "body": String::from_utf8_lossy(body), "pct": pct(body)})),
            StorageOp::Head { key } => (key.clone(), json!({"head": key})),
            StorageOp::List { prefix, limit } => (prefix.clone().unwrap_or_default(), json!({"list": prefix, "limit": limit})),
            StorageOp::Delete { key } => (key.clone(), json!({"delete": key})),
        };
        let f = self.ask(label(&k), json!({"ask": "storage", "id": label(&k), "binding": b, "op": v}));
        expect!(f, Answer::Storage(x) => x, StorageResult::Error("bad answer".into()))
    }
    fn handle_binding_kv(&self, b: &str, op: KvOp) -> OpFuture<'_, KvResult> {
        let (k, v) = match &op {
            KvOp::Get { key } => (key.clone(), json!({"get": key})),
            KvOp::Put { key, value, expires_in } => (key.clone(), json!({"put": key, "value": value, "ttl": expires_in})),
            KvOp::Delete { key } => (key.clone(), json!({"delete": key})),
            KvOp::List { prefix, limit } => (prefix.clone().unwrap_or_default(), json!({"list": prefix, "limit": limit})),
        };
        let key = if b == "CTL" { format!("ctl {}", label(&k)) } else { label(&k) };
        let f = self.ask(key, json!({"ask": "kv", "id": label(&k), "binding": b, "op": v}));
        expect!(f, Answer::Kv(x) => x, KvResult::Error("bad answer".into()))
    }
    fn handle_binding_database(&self, b: &str, op: DatabaseOp) -> OpFuture<'_, DatabaseResult> {
        let DatabaseOp::Query { sql, params } = &op;
        let f = self.ask(label(sql), json!({"ask": "db", "id": label(sql), "binding": b, "sql": sql,
                                            "params": mbt::serde_json::to_value(params).unwrap()}));
        expect!(f, Answer::Db(x) => x, DatabaseResult::Error("bad answer".into()))
    }
    fn handle_websocket_connect(&self, url: String, headers: HashMap<String, String>) -> OpFuture<'_, Result<WebSocketConnection, String>> {
        let h: BTreeMap<_, _> = headers.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
        let f = self.ask(label(&url), json!({"ask": "ws", "id": label(&url), "url": url, "headers": h}));
        expect!(f, Answer::Ws(x) => x, Err("bad answer".into()))
    }
    fn handle_log(&self, level: LogLevel, message: String) {
        let mut h = self.0.lock().unwrap();
        if let Some(m) = message.strip_prefix('@') {
            let v = mbt::serde_json::from_str(m).unwrap_or(json!(message));
            h.log.push(v);
        } else if h.keep_logs {
            h.log.push(json!([level.to_string(), message]));
        }
        if std::env::var_os("OW_LOG").is_some() {
            eprintln!("[{level}] {message}");
        }
    }
}

/// How many rounds of the executor a step is given to come to rest.
const ROUNDS: usize = 60;

pub async fn settle() {
    for _ in 0..ROUNDS {
        tokio::task::yield_now().await;
    }
}

struct Flight {
    task: tokio::task::JoinHandle<()>,
}

pub struct Rt {
    rt: Option<tokio::runtime::Runtime>,
    local: LocalSet,
    host: Arc<Mutex<Host>>,
    worker: Rc<RefCell<Option<Worker>>>,
    /// executions in flight by request label
    flights: BTreeMap<String, Flight>,
    results: Rc<RefCell<Vec<Value>>>,
    responses: Rc<RefCell<BTreeMap<String, ResponseBody>>>,
    req_bodies: BTreeMap<String, mpsc::Sender<Result<Bytes, String>>>,
    cfg: Value,
    /// what the script did before the first step
    first: Option<Value>,
    /// with "via": "pool", the owner this path's requests belong to
    owner: Option<String>,
}

static OWNERS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn limits(cfg: &Value) -> RuntimeLimits {
    let l = &cfg["limits"];
    let n = |k: &str, d: u64| l[k].as_u64().unwrap_or(d);
    RuntimeLimits {
        heap_initial_mb: 1,
        heap_max_mb: n("heap_max_mb", 128) as usize,
        max_cpu_time_ms: n("cpu_ms", 0),
        max_wall_clock_time_ms: n("wall_ms", 0),
        stream_buffer_size: n("stream", 16) as usize,
    }
}

fn binding(t: &str) -> BindingType {
    match t {
        "assets" => BindingType::Assets,
        "storage" => BindingType::Storage,
        "kv" => BindingType::Kv,
        "db" => BindingType::Database,
        "worker" => BindingType::Worker,
        _ => panic!("binding {t}"),
    }
}

pub fn script(cfg: &Value) -> Script {
    let mut b = vec![BindingInfo::new("CTL", BindingType::Kv)];
    for x in cfg["bindings"].as_array().into_iter().flatten() {
        b.push(BindingInfo::new(x[0].as_str().unwrap(), binding(x[1].as_str().unwrap())));
    }
    let env = cfg["env"].as_object().map(|m| {
        m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()
    });
    Script::with_bindings(cfg["script"].as_str().unwrap(), env, b)
}

pub fn http_request(v: &Value) -> (HttpRequest, Option<mpsc::Sender<Result<Bytes, String>>>) {
    let mut tx = None;
    let body = match &v["body"] {
        Value::Null => RequestBody::None,
        Value::String(s) => RequestBody::Bytes(Bytes::from(s.clone())),
        x if x.is_array() => RequestBody::Bytes(bytes(x)),
        x => {
            let (t, r) = mpsc::channel(x["stream"].as_u64().unwrap_or(8) as usize);
            tx = Some(t);
            RequestBody::Stream(r)
        }
    };
    let headers = v["headers"].as_object().map(|m| {
        m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()
    });
    let r = HttpRequest {
        method: v["method"].as_str().unwrap_or("GET").parse().unwrap_or_default(),
        url: v["url"].as_str().unwrap_or("http://w/").to_string(),
        headers: headers.unwrap_or_default(),
        body,
    };
    (r, tx)
}

impl Rt {
    pub fn new(cfg: &Value) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .build()
            .unwrap();
        let local = LocalSet::new();
        let host = Arc::new(Mutex::new(Host { keep_logs: cfg["logs"] == json!(true), ..Default::default() }));
        let mut s = Rt {
            rt: Some(rt),
            local,
            host,
            worker: Rc::new(RefCell::new(None)),
            flights: BTreeMap::new(),
            results: Rc::new(RefCell::new(Vec::new())),
            responses: Rc::new(RefCell::new(BTreeMap::new())),
            req_bodies: BTreeMap::new(),
            cfg: cfg.clone(),
            first: None,
            owner: None,
        };
        if cfg["via"] == json!("pool") {
            let n = OWNERS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            s.owner = Some(format!("owner {n}"));
            return s.begun();
        }
        let (sc, lim, ops) = (script(cfg), limits(cfg), Arc::new(Ops(s.host.clone())));
        let w = s
            .rt
            .as_ref()
            .unwrap()
            .block_on(s.local.run_until(async move { Worker::new_with_ops(sc, Some(lim), ops).await }));
        match w {
            Ok(w) => *s.worker.borrow_mut() = Some(w),
            Err(e) => s.results.borrow_mut().push(json!({"new": e.to_string()})),
        }
        s.begun()
    }

    fn begun(self) -> Self {
        let cfg = self.cfg.clone();
        let mut s = self;
        for op in cfg["begin"].as_array().into_iter().flatten() {
            s.run(op);
        }
        s.settle();
        let o = s.observe();
        if cfg["first"] == json!(true) {
            s.first = Some(o);
        }
        s
    }

    fn settle(&mut self) {
        self.rt.as_ref().unwrap().block_on(self.local.run_until(settle()));
    }

    fn exec(&mut self, op: &Value) {
        let id = op["r"].as_str().unwrap_or("1").to_string();
        let cell = self.worker.clone();
        let results = self.results.clone();
        let responses = self.responses.clone();
        let _g = self.rt.as_ref().unwrap().enter();
        if op["kind"] == json!("task") || op["kind"] == json!("schedule") {
            let (ev, rx) = if op["kind"] == json!("task") {
                let payload = if op["payload"].is_null() { None } else { Some(op["payload"].clone()) };
                Event::task(id.clone(), payload, None, op["attempt"].as_u64().unwrap_or(1) as u32)
            } else {
                Event::from_schedule(id.clone(), op["time"].as_u64().unwrap_or(0))
            };
            let (id2, res2) = (id.clone(), results.clone());
            self.local.spawn_local(async move {
                let v = match rx.await {
                    Ok(t) => json!({"success": t.success, "data": t.data, "error": t.error}),
                    Err(_) => json!("none"),
                };
                res2.borrow_mut().push(json!({"result": id2, "v": v}));
            });
            self.fly(id, cell, results, ev);
            return;
        }
        let (req, tx) = http_request(op);
        if let Some(tx) = tx {
            self.req_bodies.insert(id.clone(), tx);
        }
        let (ev, rx) = Event::fetch(req);
        let (id2, res2) = (id.clone(), results.clone());
        self.local.spawn_local(async move {
            match rx.await {
                Ok(r) => {
                    let kind = match &r.body {
                        ResponseBody::None => json!("none"),
                        ResponseBody::Bytes(b) => json!({"bytes": String::from_utf8_lossy(b), "pct": pct(b)}),
                        ResponseBody::Stream(_) => json!("stream"),
                    };
                    res2.borrow_mut().push(json!({"response": id2, "status": r.status, "headers": r.headers, "body": kind}));
                    responses.borrow_mut().insert(id2, r.body);
                }
                Err(_) => res2.borrow_mut().push(json!({"response": id2, "status": "none"})),
            }
        });
        self.fly(id, cell, results, ev);
    }

    fn fly(&mut self, id: String, cell: Rc<RefCell<Option<Worker>>>, results: Rc<RefCell<Vec<Value>>>, ev: Event) {
        let id2 = id.clone();
        if self.owner.is_some() {
            let req = self.pinned(script(&self.cfg), 1, ev);
            let task = self.local.spawn_local(async move {
                let v = match execute_pinned(req).await {
                    Ok(()) => "ok".to_string(),
                    Err(e) => e.to_string(),
                };
                results.borrow_mut().push(json!({"exec": id2, "v": v}));
            });
            self.flights.insert(id, Flight { task });
            return;
        }
        let task = self.local.spawn_local(async move {
            let Some(mut w) = cell.borrow_mut().take() else {
                results.borrow_mut().push(json!({"exec": id2, "v": "busy"}));
                return;
            };
            let r = w.exec(ev).await;
            let v = match r {
                Ok(()) => "ok".to_string(),
                Err(e) => e.to_string(),
            };
            results.borrow_mut().push(json!({"exec": id2, "v": v}));
            *cell.borrow_mut() = Some(w);
        });
        self.flights.insert(id, Flight { task });
    }

    fn pinned(&self, script: Script, version: i32, task: Event) -> PinnedExecuteRequest {
        PinnedExecuteRequest {
            owner_id: self.owner.clone().unwrap(),
            worker_id: "a worker".into(),
            version,
            script,
            ops: Arc::new(Ops(self.host.clone())),
            task,
            on_warm_hit: None,
            env_updated_at: None,
        }
    }

    /// The worker ends.
    fn end_worker(&mut self) {
        for (_, f) in std::mem::take(&mut self.flights) {
            f.task.abort();
        }
        self.settle();
        let w = self.worker.borrow_mut().take();
        {
            let _g = self.rt.as_ref().unwrap().enter();
            drop(w);
        }
        if self.owner.is_some() {
            // its kept context makes room for another's
            let (ev, _rx) = Event::fetch(http_request(&Value::Null).0);
            let req = self.pinned(Script::new("addEventListener('fetch', e => e.respondWith(new Response('')))"), 2, ev);
            let r = self.rt.as_ref().unwrap().block_on(self.local.run_until(execute_pinned(req)));
            assert!(r.is_ok(), "{r:?}");
        }
    }

    fn answer(&mut self, op: &Value) -> Value {
        let id = op["id"].as_str().unwrap();
        let how = &op["how"];
        let mut h = self.host.lock().unwrap();
        let Some(tx) = h.pending.remove(id) else { return json!("none") };
        let mut http = |h: &mut Host| -> HttpResponse {
            let body = match &how["body"] {
                Value::Null => ResponseBody::None,
                Value::String(s) => ResponseBody::Bytes(Bytes::from(s.clone())),
                Value::Array(_) => ResponseBody::Bytes(bytes(&how["body"])),
                x => {
                    let (t, r) = mpsc::channel(x["stream"].as_u64().unwrap_or(8) as usize);
                    h.bodies.insert(id.to_string(), t);
                    ResponseBody::Stream(r)
                }
            };
            let headers = how["headers"].as_array().into_iter().flatten()
                .map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string()))
                .collect();
            HttpResponse { status: how["status"].as_u64().unwrap_or(200) as u16, headers, body }
        };
        let err = how["err"].as_str().map(|s| s.to_string());
        let a = match how["k"].as_str().unwrap() {
            "http" => match err {
                Some(e) => Answer::Http(Err(e)),
                None => Answer::Http(Ok(http(&mut h))),
            },
            "kv" => Answer::Kv(match err {
                Some(e) => KvResult::Error(e),
                None if how["keys"].is_array() => KvResult::Keys(strings(&how["keys"])),
                None if how["ok"] == json!(true) => KvResult::Ok,
                None => KvResult::Value(if how["value"].is_null() { None } else { Some(how["value"].clone()) }),
            }),
            "storage" => Answer::Storage(match err {
                Some(e) => StorageResult::Error(e),
                None if how["keys"].is_array() => StorageResult::List {
                    keys: strings(&how["keys"]), truncated: how["truncated"] == json!(true) },
                None if how["size"].is_u64() => StorageResult::Head {
                    size: how["size"].as_u64().unwrap(), etag: how["etag"].as_str().map(|s| s.to_string()) },
                None if how["http"] == json!(true) => StorageResult::Response(http(&mut h)),
                None if how["ok"] == json!(true) => StorageResult::Body(None),
                None => StorageResult::Body(how["body"].as_str().map(|s| s.as_bytes().to_vec())),
            }),
            "db" => Answer::Db(match err {
                Some(e) => DatabaseResult::Error(e),
                None => DatabaseResult::Rows(how["rows"].as_str().unwrap_or("[]").to_string()),
            }),
            "ws" => match err {
                Some(e) => Answer::Ws(Err(e)),
                None => {
                    let (send_tx, out_rx) = mpsc::unbounded_channel();
                    let (in_tx, recv_rx) = mpsc::unbounded_channel();
                    h.ws_in.insert(id.to_string(), in_tx);
                    h.ws_out.push((id.to_string(), out_rx));
                    Answer::Ws(Ok(WebSocketConnection { send_tx, recv_rx }))
                }
            },
            x => panic!("answer {x}"),
        };
        drop(h);
        match tx.send(a) {
            Ok(()) => json!("ok"),
            Err(_) => json!("gone"),
        }
    }

    fn run(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "exec" => {
                self.exec(op);
                json!("ok")
            }
            "tick" => {
                let n = op["n"].as_u64().unwrap_or(1);
                self.rt.as_ref().unwrap().block_on(self.local.run_until(async move {
                    tokio::time::advance(Duration::from_millis(n)).await;
                }));
                json!("ok")
            }
            "answer" => self.answer(op),
            "chunk" => {
                let h = self.host.lock().unwrap();
                let Some(t) = h.bodies.get(op["id"].as_str().unwrap()) else { return json!("none") };
                let v = match op["err"].as_str() {
                    Some(e) => Err(e.to_string()),
                    None => Ok(op["c"].as_str().map_or_else(|| bytes(&op["c"]), |c| Bytes::from(c.to_string()))),
                };
                match t.try_send(v) {
                    Ok(()) => json!("ok"),
                    Err(mpsc::error::TrySendError::Full(_)) => json!("full"),
                    Err(mpsc::error::TrySendError::Closed(_)) => json!("closed"),
                }
            }
            "end" => {
                self.host.lock().unwrap().bodies.remove(op["id"].as_str().unwrap());
                json!("ok")
            }
            "body" => {
                let Some(t) = self.req_bodies.get(op["r"].as_str().unwrap_or("1")) else { return json!("none") };
                let v = match op["err"].as_str() {
                    Some(e) => Err(e.to_string()),
                    None => Ok(op["c"].as_str().map_or_else(|| bytes(&op["c"]), |c| Bytes::from(c.to_string()))),
                };
                match t.try_send(v) {
                    Ok(()) => json!("ok"),
                    Err(mpsc::error::TrySendError::Full(_)) => json!("full"),
                    Err(mpsc::error::TrySendError::Closed(_)) => json!("closed"),
                }
            }
            "body_end" => {
                self.req_bodies.remove(op["r"].as_str().unwrap_or("1"));
                json!("ok")
            }
            // the client reads the next chunk of a streamed response
            "recv" => {
                let id = op["r"].as_str().unwrap_or("1");
                match self.responses.borrow_mut().get_mut(id) {
                    Some(ResponseBody::Stream(rx)) => match rx.try_recv() {
                        Ok(Ok(b)) => json!({"data": String::from_utf8_lossy(&b), "pct": pct(&b)}),
                        Ok(Err(e)) => json!({"err": e}),
                        Err(mpsc::error::TryRecvError::Empty) => json!("empty"),
                        Err(mpsc::error::TryRecvError::Disconnected) => json!("end"),
                    },
                    _ => json!("none"),
                }
            }
            // the client goes away
            "hangup" => {
                self.responses.borrow_mut().remove(op["r"].as_str().unwrap_or("1"));
                json!("ok")
            }
            "drop" => {
                if let Some(f) = self.flights.remove(op["r"].as_str().unwrap_or("1")) {
                    f.task.abort();
                }
                json!("ok")
            }
            // the worker ends, with what it is doing
            "close" => {
                self.end_worker();
                json!("ok")
            }
            "wsmsg" => {
                let h = self.host.lock().unwrap();
                let Some(t) = h.ws_in.get(op["id"].as_str().unwrap()) else { return json!("none") };
                let m = match op["k"].as_str().unwrap() {
                    "text" => WebSocketIncoming::Text(op["v"].as_str().unwrap().into()),
                    "bin" => WebSocketIncoming::Binary(op["v"].as_str().unwrap().as_bytes().to_vec()),
                    "close" => WebSocketIncoming::Closed {
                        code: op["code"].as_u64().unwrap_or(1000) as u16,
                        reason: op["v"].as_str().unwrap_or("").into() },
                    _ => WebSocketIncoming::Error(op["v"].as_str().unwrap_or("").into()),
                };
                json!(if t.send(m).is_ok() { "ok" } else { "closed" })
            }
            "wsgone" => {
                self.host.lock().unwrap().ws_in.remove(op["id"].as_str().unwrap());
                json!("ok")
            }
            // its time passes (real time: the limit is kept by a thread of its own)
            "wall" => {
                let ms = self.cfg["limits"]["wall_ms"].as_u64().unwrap();
                std::thread::sleep(Duration::from_millis(ms + ms / 2));
                json!("ok")
            }
            // everything else is for the script
            _ => {
                let who = op["w"].as_str().unwrap_or("cmd");
                let tx = self.host.lock().unwrap().ctl.remove(who);
                match tx {
                    Some(tx) => {
                        let _ = tx.send(Answer::Kv(KvResult::Value(Some(op.clone()))));
                        json!("ok")
                    }
                    None => json!("deaf"),
                }
            }
        }
    }

    fn observe(&mut self) -> Value {
        let mut h = self.host.lock().unwrap();
        let mut out = Vec::new();
        for (id, rx) in h.ws_out.iter_mut() {
            while let Ok(m) = rx.try_recv() {
                out.push(match m {
                    WebSocketOutgoing::Text(t) => json!([id, "text", t]),
                    WebSocketOutgoing::Binary(b) => json!([id, "bin", String::from_utf8_lossy(&b)]),
                    WebSocketOutgoing::Close { code, reason } => json!([id, "close", code, reason]),
                });
            }
        }
        json!({"log": std::mem::take(&mut h.log), "asked": std::mem::take(&mut h.asked), "ws": out,
               "host": std::mem::take(&mut *self.results.borrow_mut()),
               "listens": h.ctl.len()})
    }
}

fn bytes(v: &Value) -> Bytes {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>().into()
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

/// The steps of spec/Io.tla, as the host does them.
fn io_op(a: &Value) -> Value {
    let i = a["i"].to_string();
    match a["op"].as_str().unwrap() {
        "answer" => {
            let b = format!("B{i}");
            let mut how = json!({"status": 200 + a["i"].as_u64().unwrap(), "headers": [["x-id", i]]});
            match a["how"].as_str().unwrap() {
                "buf" => how["body"] = json!(b),
                "str" => how["body"] = json!({"stream": 8}),
                "err" => how["err"] = json!(format!("e{i}")),
                _ => {}
            }
            how["k"] = json!(match a["k"].as_str().unwrap() {
                "sfetch" | "sget" => "storage",
                "kv" => "kv",
                "db" => "db",
                _ => "http",
            });
            match a["k"].as_str().unwrap() {
                "sfetch" => how["http"] = json!(true),
                "kv" if a["how"] == "buf" => how["value"] = json!({"v": b}),
                "db" => how["rows"] = json!(if a["how"] == "buf" { format!("[{{\"v\":\"{b}\"}}]") } else { "null".into() }),
                _ => {}
            }
            json!({"op": "answer", "id": i, "how": how})
        }
        "chunk" if a["how"] == "fail" => json!({"op": "chunk", "id": i, "err": "broken"}),
        "chunk" => json!({"op": "chunk", "id": i, "c": format!("c{i}.{};", a["n"])}),
        "end" => json!({"op": "end", "id": i}),
        _ => a.clone(),
    }
}

/// The steps of spec/Req.tla.
fn req_op(a: &Value) -> Value {
    match a["op"].as_str().unwrap() {
        "answer" => {
            let mut how = json!({"k": "http", "status": 201, "headers": [["x-f", "1"]]});
            if a["how"] == "str" {
                how["body"] = json!({"stream": 8});
            } else {
                how["err"] = json!("no");
            }
            json!({"op": "answer", "id": "f", "how": how})
        }
        "chunk" => {
            let mut op = if a["k"] == "echo" { json!({"op": "body"}) } else { json!({"op": "chunk", "id": "f"}) };
            if a["how"] == "broken" {
                op["err"] = json!("broken");
            } else {
                op["c"] = json!(format!("c{};", a["n"]));
            }
            op
        }
        "end" if a["k"] == "echo" => json!({"op": "body_end"}),
        "end" => json!({"op": "end", "id": "f"}),
        _ => a.clone(),
    }
}

/// The steps of spec/Task.tla.
fn task_op(a: &Value, cfg: &Value) -> Value {
    let mut op = a.clone();
    if a["op"] == "exec" {
        op["r"] = a["id"].clone();
        op["payload"] = a["payload"].as_str().map_or(Value::Null, |p| cfg["values"][p].clone());
        op["time"] = json!(a["time"].as_u64().unwrap_or(0) * 1000);
    }
    op
}
fn task_pick(o: &Value, cfg: &Value) -> Value {
    let name = |x: &Value| match cfg["values"].as_object().unwrap().iter().find(|(_, v)| *v == x) {
        Some((k, _)) => json!(k),
        None if x.is_null() => json!("none"),
        None => x.clone(),
    };
    let known = |e: &str| e == "T" || e == "E" || (e.len() == 2 && e.starts_with('W'));
    let mut host: Vec<Value> = o["host"].as_array().unwrap().iter().map(|x| match &x["exec"] {
        Value::String(_) => json!(format!("exec {}", x["v"].as_str().unwrap())),
        _ if x["v"] == "none" => json!({"result": "none"}),
        _ => json!({"result": {"success": x["v"]["success"], "data": name(&x["v"]["data"]),
            "error": match x["v"]["error"].as_str() { None => "none", Some(e) if known(e) => e, _ => "missing" }}}),
    }).collect();
    host.sort_by_key(|x| x.is_string());
    json!({"r": o["r"], "log": o["log"], "host": host})
}

/// The steps of spec/Msg.tla: what the names of bodies, headers and values stand for.
fn msg_body(b: &str, cfg: &Value) -> Value {
    match b {
        "none" => Value::Null,
        "empty" => json!(""),
        "str" => cfg["bytes"].clone(),
        "stream" => json!({"stream": 8}),
        "long" => json!((0..cfg["long"].as_u64().unwrap()).map(|i| i % 251).collect::<Vec<_>>()),
        x => panic!("body {x}"),
    }
}
fn msg_shown(p: &str, cfg: &Value) -> String {
    let long: Vec<u8> = (0..cfg["long"].as_u64().unwrap()).map(|i| (i % 251) as u8).collect();
    if p == pct(&long) {
        return "LONG".into();
    }
    match (p.strip_prefix("------OpenWorkersBoundary"), p.find("%0D%0A")) {
        (Some(_), Some(n)) => {
            let q = p.replace(&p[2..n], "BOUNDARY");
            let want = "--BOUNDARY%0D%0AContent-Disposition:%20form-data;%20name=\"a\"%0D%0A%0D%0A1%0D%0A--BOUNDARY%0D%0AContent-Disposition:\
                        %20form-data;%20name=\"b\";%20filename=\"n.t\"%0D%0AContent-Type:%20x/y%0D%0A%0D%0AB%0D%0A--BOUNDARY--%0D%0A";
            if q == want { "FORM".into() } else { q }
        }
        _ => p.to_string(),
    }
}
/// The type and the other headers, with names in lower case, in order.
fn msg_headers(h: impl Iterator<Item = (String, String)>) -> (Value, Value) {
    let (t, mut o): (Vec<_>, Vec<_>) = h.map(|(k, v)| (k.to_lowercase(), v)).partition(|x| x.0 == "content-type");
    o.sort();
    let t: Vec<_> = t.into_iter().map(|x| x.1).filter(|x| !x.starts_with("text/plain")).collect();
    let t = t.join(" and ");
    let t = match t.find("----OpenWorkersBoundary") {
        Some(n) => format!("{}BOUNDARY", &t[..n]),
        None => t,
    };
    (json!(t), o.into_iter().map(|(k, v)| format!("{k}: {v}")).collect())
}
fn msg_pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string())).collect()
}
fn msg_asked(x: &Value, cfg: &Value) -> Value {
    let ask = x["ask"].as_str().unwrap_or("gone");
    let listed = |o: &Value| match (&o["list"], &o["limit"]) {
        (Value::Null, Value::Null) => "none",
        (p, Value::Null) if p == "p/" => "prefix",
        (Value::Null, l) if *l == json!(10) => "limit",
        (p, l) if p == "p/" && *l == json!(10) => "both",
        _ => "other",
    };
    let o = &x["op"];
    match ask {
        "fetch" | "assets" | "worker" => {
            let (t, h) = msg_headers(x["headers"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())));
            let u = x["url"].as_str().unwrap();
            let ok = u.starts_with("http://h/x?q=a%20b&n=") && u.ends_with("/1")
                && x["binding"] == (match ask { "fetch" => Value::Null, "assets" => json!("ASSETS"), _ => json!("WORKER") });
            let k = if ok { ask.to_string() } else { format!("{ask} {u} {}", x["binding"]) };
            json!([k, x["method"], t, h, msg_shown(x["pct"].as_str().unwrap_or(""), cfg)])
        }
        "kv" | "storage" => {
            let right = x["binding"] == json!(if ask == "kv" { "KV" } else { "ST" });
            let f = ["get", "put", "delete", "list", "head", "fetch"].into_iter().find(|f| o.get(f).is_some()).unwrap();
            let key = o[f] == json!("k/1");
            let v = match f {
                "list" => listed(o).to_string(),
                _ if !key => format!("key {}", o[f]),
                "put" if ask == "storage" => msg_shown(o["pct"].as_str().unwrap(), cfg),
                "put" if o["ttl"] == json!(60) && o["value"] == json!(7) => "ttl".into(),
                "put" if o["ttl"].is_null() => cfg["values"].as_object().unwrap().iter().find(|v| *v.1 == o["value"])
                    .map_or_else(|| o["value"].to_string(), |v| v.0.clone()),
                "put" => o.to_string(),
                _ => "key".into(),
            };
            json!([if right { ask } else { "other" }, f, v])
        }
        "db" => {
            fn norm(v: &Value) -> Value {
                match v {
                    Value::Array(a) => a.iter().map(norm).collect(),
                    Value::Number(n) => json!(n.as_f64()),
                    v => v.clone(),
                }
            }
            let p = norm(&x["params"]);
            let v = cfg["sql"].as_object().unwrap().iter().find(|v| norm(v.1) == p).map_or_else(|| p.to_string(), |v| v.0.clone());
            json!([if x["binding"] == "DB" && x["sql"] == "select 1" { "db" } else { "other" }, "query", v])
        }
        _ => x.clone(),
    }
}

/// The steps of spec/Ws.tla.
fn ws_op(a: &Value) -> Value {
    let i = a["i"].to_string();
    match (a["op"].as_str().unwrap(), a["k"].as_str()) {
        ("answer", _) if a["how"] == "ok" => json!({"op": "answer", "id": i, "how": {"k": "ws"}}),
        ("answer", _) => json!({"op": "answer", "id": i, "how": {"k": "ws", "err": "refused"}}),
        ("host", Some("gone")) => json!({"op": "wsgone", "id": i}),
        ("host", Some("close")) => json!({"op": "wsmsg", "id": i, "k": "close", "code": 3000 + a["i"].as_u64().unwrap(), "v": "bye"}),
        ("host", Some(k)) => json!({"op": "wsmsg", "id": i, "k": k, "v": format!("h{i}.{}", a["n"])}),
        _ => a.clone(),
    }
}
fn ws_asked(x: &Value) -> Value {
    if let Some(g) = x["gone"].as_str() {
        return json!(["gone", g.parse::<u64>().unwrap_or(0)]);
    }
    let (i, u, h) = (x["id"].as_str().unwrap_or(""), x["url"].as_str().unwrap_or(""), &x["headers"]);
    let n = i.split('?').next().unwrap().parse::<u64>().unwrap_or(0);
    let p = |v: &str| json!({"sec-websocket-protocol": v});
    let made = match n {
        1 => u == "ws://h/x/1" && *h == json!({}),
        2 => u == "wss://h/x/2" && *h == p("p, q"),
        3 => u == "wss://h/x/3" && *h == p("p"),
        _ => u == "ws://h/x/4" && (*h == json!({}) || *h == p("")),
    };
    let up = u == format!("https://h/x/{n}") && *h == json!({"upgrade": if n % 2 == 1 { "websocket" } else { "WebSocket" }, "x-a": "1"});
    if x["ask"] != "ws" { x.clone() } else if made { json!(["ctor", n]) } else if up { json!(["up", n]) } else { x.clone() }
}

impl Rt {
    fn ws_step(&mut self, a: &Value) -> Value {
        let mut r = self.run(&ws_op(a));
        self.settle();
        if a["op"] == "over" {
            if self.owner.is_none() {
                self.end_worker();
                self.settle();
            }
            // which far ends still have this end
            let h = self.host.lock().unwrap();
            let mut open: Vec<_> = h.ws_out.iter().filter(|x| !x.1.is_closed()).map(|x| x.0.clone()).collect();
            open.extend(h.ws_in.iter().filter(|x| !x.1.is_closed()).map(|x| x.0.clone()));
            r = json!(open);
        }
        let o = self.observe();
        let mut asked: Vec<Value> = o["asked"].as_array().unwrap().iter().map(ws_asked).collect();
        asked.sort_by_key(|x| x[1].as_u64());
        let mut ws = o["ws"].clone();
        for x in ws.as_array_mut().unwrap() {
            x[0] = json!(x[0].as_str().unwrap().parse::<u64>().unwrap_or(0));
        }
        json!({"r": r, "log": o["log"], "asked": asked, "ws": ws})
    }

    /// The steps of spec/Limit.tla.
    fn limit_step(&mut self, a: &Value) -> Value {
        let r = match a["op"].as_str().unwrap() {
            "answer" => self.run(&json!({"op": "answer", "id": "f", "how": {"k": "http"}})),
            "spin" => {
                let r = self.run(a);
                self.settle();
                match a["k"].as_str().unwrap() {
                    "timer" => drop(self.run(&json!({"op": "tick", "n": 5}))),
                    "answer" => drop(self.run(&json!({"op": "answer", "id": "s", "how": {"k": "http"}}))),
                    _ => {}
                }
                r
            }
            "again" => {
                self.run(&json!({"op": "exec", "r": "2"}));
                self.settle();
                self.run(&json!({"op": "respond", "k": "buf"}))
            }
            "load" => {
                let sc = Script::new(self.cfg["load"][a["k"].as_str().unwrap()].as_str().unwrap());
                if self.owner.is_some() {
                    let (ev, mut rx) = Event::fetch(http_request(&Value::Null).0);
                    let req = self.pinned(sc, 2, ev);
                    let r = self.rt.as_ref().unwrap().block_on(self.local.run_until(execute_pinned(req)));
                    let v = r.map_or_else(|e| e.to_string(), |_| "ok".into());
                    let got = if rx.try_recv().is_ok() { json!(200) } else { json!("none") };
                    self.results.borrow_mut().extend([json!({"response": "3", "status": got}), json!({"exec": "3", "v": v})]);
                } else {
                    let (lim, ops) = (limits(&self.cfg), Arc::new(Ops(self.host.clone())));
                    let w = self.rt.as_ref().unwrap().block_on(self.local.run_until(async move {
                        Worker::new_with_ops(sc, Some(lim), ops).await.map(drop)
                    }));
                    let v = w.map_or_else(|e| e.to_string(), |_| "ok".into());
                    self.results.borrow_mut().push(json!({"exec": "3", "v": v}));
                }
                json!("ok")
            }
            _ => self.run(a),
        };
        self.settle();
        let o = self.observe();
        let asked: Vec<Value> = o["asked"].as_array().unwrap().iter().filter(|x| x["id"] != "s").map(|x| match x["gone"].as_str() {
            Some(g) => json!(format!("gone {g}")),
            None => x["id"].clone(),
        }).collect();
        let mut host: Vec<String> = o["host"].as_array().unwrap().iter().map(|x| {
            if x["exec"].is_null() {
                return match (&x["body"]["bytes"], x["status"].as_u64()) {
                    (_, None) => "resp none".into(),
                    (Value::String(b), Some(n)) => format!("resp {n} {b}"),
                    (_, Some(n)) => format!("resp {n} {}", x["body"].as_str().unwrap_or("")),
                };
            }
            let v = x["v"].as_str().unwrap();
            let short = [("CpuTime", "cpu"), ("WallClock", "wall"), ("MemoryLimit", "mem")];
            let known = short.iter().find(|s| v.contains(s.0)).map(|s| s.1);
            format!("exec {}", known.unwrap_or(if v.contains("xception") { "exception" } else { v }))
        }).collect();
        host.sort_by_key(|x| x.starts_with("exec"));
        let r = match (&r["data"], &r["err"]) {
            (Value::String(d), _) => json!(d),
            (_, Value::String(_)) => json!("err"),
            _ => r,
        };
        let log: Vec<Value> = o["log"].as_array().unwrap().iter().map(|x| x[0].clone()).collect();
        json!({"r": r, "log": log, "asked": asked, "host": host})
    }

    fn msg_step(&mut self, a: &Value) -> Value {
        let cfg = self.cfg.clone();
        let name = |k: &str| a[k].as_str().unwrap();
        let stream = |me: &mut Rt, op: &str| {
            let all = cfg["bytes"].as_array().unwrap().clone();
            for part in [&all[..2], &all[2..2], &all[2..]] {
                me.run(&json!({"op": op, "id": "1", "c": part}));
                me.settle();
            }
            me.run(&json!({"op": if op == "body" { "body_end" } else { "end" }, "id": "1"}));
        };
        let r = match name("op") {
            "answer" => {
                let how = json!({"k": "http", "status": a["st"], "headers": cfg["hdrs"][name("h")], "body": msg_body(name("b"), &cfg)});
                let r = self.run(&json!({"op": "answer", "id": "1", "how": how}));
                if name("b") == "stream" {
                    self.settle();
                    stream(self, "chunk");
                }
                r
            }
            "serve" => {
                let h: mbt::serde_json::Map<_, _> = msg_pairs(&cfg["hdrs"][name("h")]).into_iter().map(|(k, v)| (k, json!(v))).collect();
                let op = json!({"op": "exec", "method": a["m"], "url": cfg["url0"], "headers": h, "body": msg_body(name("b"), &cfg)});
                let r = self.run(&op);
                if name("b") == "stream" {
                    self.settle();
                    stream(self, "body");
                }
                r
            }
            "reply" => {
                let id = self.host.lock().unwrap().pending.keys().next().cloned().unwrap_or_default();
                let mut how = match (name("f"), name("v")) {
                    (_, "err") => json!({"err": "E"}),
                    ("get", v) if name("k") == "kv" => json!({"value": cfg["values"][v]}),
                    ("get", "null") => json!({"ok": true}),
                    ("get", v) => json!({"body": cfg["values"][v]}),
                    ("put" | "delete", _) => json!({"ok": true}),
                    ("list", "none") => json!({"keys": []}),
                    ("list", _) => json!({"keys": ["p/1", "\u{e9}"], "truncated": true}),
                    ("head", "size") => json!({"size": 5}),
                    ("head", _) => json!({"size": 1u64 << 40, "etag": "\"e\""}),
                    ("query", "none") => json!({"rows": "[]"}),
                    ("query", _) => json!({"rows": json!([cfg["values"]["odd"], {"a": 1}]).to_string()}),
                    x => panic!("{x:?}"),
                };
                how["k"] = a["k"].clone();
                self.run(&json!({"op": "answer", "id": id, "how": how}))
            }
            _ => self.run(a),
        };
        if r != json!("ok") {
            return r;
        }
        self.settle();
        let o = self.observe();
        let asked: Vec<_> = o["asked"].as_array().unwrap().iter().map(|x| msg_asked(x, &cfg)).collect();
        let mut host: Vec<Value> = vec![];
        for x in o["host"].as_array().unwrap() {
            if x["response"].is_null() {
                host.push(x["v"].clone());
                continue;
            }
            let (t, h) = msg_headers(msg_pairs(&x["headers"]).into_iter());
            let mut b = x["body"]["pct"].as_str().unwrap_or("").to_string();
            if x["body"] == "stream" {
                for _ in 0..200 {
                    let c = self.run(&json!({"op": "recv"}));
                    match c["pct"].as_str() {
                        Some(p) => b.push_str(p),
                        None if c == "end" => break,
                        None if c == "empty" => {
                            self.run(&json!({"op": "tick", "n": 2}));
                        }
                        None => {
                            b.push_str(&c.to_string());
                            break;
                        }
                    }
                    self.settle();
                }
            }
            if cfg["fails"] == "somehow" && x["status"] == 500 {
                host.push(json!(["response", 500, "", [], ""])); // whatever the words
                continue;
            }
            host.push(json!(["response", x["status"], t, h, msg_shown(&b, &cfg)]));
        }
        let mut log = o["log"].as_array().unwrap().clone();
        let o = self.observe();
        log.extend(o["log"].as_array().unwrap().iter().cloned());
        for x in log.iter_mut() {
            if x[0] == "refused" {
                *x = json!(["refused"]); // whatever the words
            }
        }
        host.extend(o["host"].as_array().unwrap().iter().map(|x| x["v"].clone()));
        host.sort_by_key(|x| x.is_string());
        json!({"asked": asked, "log": log, "host": host})
    }
}

fn kind(x: &Value) -> &str {
    match x["ask"].as_str().unwrap() {
        "storage" if x["op"]["get"].is_string() => "sget",
        "storage" if x["op"]["fetch"].is_string() => "sfetch",
        k => k,
    }
}

/// Keeps of the observation what the specification speaks about: the given parts, or
/// with "log" what the script reported alone.
fn pick(mut o: Value, keep: &Value) -> Value {
    if keep == "log" {
        if o["r"] == json!("deaf") {
            return o;
        }
        let l = o["log"].as_array().unwrap().iter();
        return Value::Array(l.map(|x| if x.as_array().is_some_and(|a| a.len() == 1) { x[0].clone() } else { x.clone() }).collect());
    }
    if keep == "io" {
        let mut a: Vec<Value> = o["asked"].as_array().unwrap().iter().map(|x| match &x["gone"] {
            Value::String(g) => json!(["gone", g.parse::<u64>().unwrap_or(0)]),
            _ => json!([kind(x), x["id"].as_str().unwrap().parse::<u64>().unwrap_or(0)]),
        }).collect();
        a.sort_by_key(|x| x[1].as_u64());
        return json!({"r": o["r"], "log": o["log"], "asked": a});
    }
    if keep == "req" {
        let r = match &o["r"] {
            Value::Object(m) if m.contains_key("data") => m["data"].clone(),
            Value::Object(_) => json!("err"),
            r => r.clone(),
        };
        let asked: Vec<Value> = o["asked"].as_array().unwrap().iter().map(|x| match &x["gone"] {
            Value::String(g) => json!(format!("gone {g}")),
            _ => x["id"].clone(),
        }).collect();
        let mut host: Vec<String> = o["host"].as_array().unwrap().iter().map(|x| match &x["exec"] {
            Value::String(_) => format!("exec {}", x["v"].as_str().unwrap()),
            _ if x["status"] == json!(500) => "resp 500".into(),
            _ if x["status"] == json!("none") => "resp none".into(),
            _ => format!("resp {} {}", x["status"], x["body"]["bytes"].as_str().or(x["body"].as_str()).unwrap()),
        }).collect();
        host.sort_by_key(|x| x.starts_with("exec"));
        let log: Vec<Value> = o["log"].as_array().unwrap().iter().map(|x| x[0].clone()).collect();
        return json!({"r": r, "log": log, "asked": asked, "host": host});
    }
    if let Some(k) = keep.as_array() {
        o.as_object_mut().unwrap().retain(|x, _| k.iter().any(|y| y == x));
    }
    o
}

impl Sut for Rt {
    fn step(&mut self, act: &Value) -> Value {
        if self.cfg["keep"] == json!("msg") {
            return self.msg_step(act);
        }
        if self.cfg["keep"] == json!("limit") {
            return self.limit_step(act);
        }
        if self.cfg["keep"] == json!("ws") {
            return self.ws_step(act);
        }
        let op = match self.cfg["keep"].as_str() {
            Some("io") => io_op(act),
            Some("req") => req_op(act),
            Some("task") => task_op(act, &self.cfg),
            _ => act.clone(),
        };
        let r = self.run(&op);
        self.settle();
        if self.cfg["keep"] == json!("req") && op["op"] == json!("recv") {
            // a writer held back tries again every millisecond
            self.run(&json!({"op": "tick", "n": 2}));
            self.settle();
        }
        let mut o = self.observe();
        o["r"] = r;
        let keep = self.cfg["keep"].clone();
        if keep == "task" {
            return task_pick(&o, &self.cfg);
        }
        pick(o, &keep)
    }

    fn finish(&mut self) -> Value {
        self.end_worker();
        self.settle();
        // the event loop and the I/O tasks are gone with the worker
        let h = self.host.lock().unwrap();
        let left: Vec<_> = h.pending.keys().cloned().collect();
        drop(h);
        let first = self.first.take();
        if !left.is_empty() {
            return json!({"bad": "operations live on", "left": left});
        }
        json!({"first": first})
    }
}

impl Drop for Rt {
    fn drop(&mut self) {
        self.responses.borrow_mut().clear();
        let rt = self.rt.take();
        let local = std::mem::replace(&mut self.local, LocalSet::new());
        if let Some(rt) = rt {
            {
                let _g = rt.enter();
                drop(local);
            }
            drop(rt);
        }
    }
}

pub fn replay(input: &Value, out: &str) {
    if input["cfg"]["via"] == json!("pool") {
        init_pinned_pool(PinnedPoolConfig {
            max_per_thread: 2,
            max_per_owner: Some(1),
            max_concurrent_per_isolate: input["cfg"]["conc"].as_u64().unwrap_or(1) as usize,
            max_cached_contexts: 1,
            limits: limits(&input["cfg"]),
        });
    }
    mbt::replay(input, out, &mut |cfg| Box::new(Rt::new(cfg)));
}
