//! Buffers made of vectors behind spec/Buffers.tla.
use crate::log;
use mbt::Sut;
use openworkers_runtime_v8::v8_helpers::create_array_buffer_from_vec;
use serde_json::{Map, Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Remembers the large allocations made while a buffer is made.
struct Watch;
const SLOTS: usize = 256;
static HELD: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static COUNT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static WATCHED: Cell<bool> = const { Cell::new(false) };
}
const LARGE: usize = 1000;

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if l.size() >= LARGE && WATCHED.try_with(|w| w.get()).unwrap_or(false) {
            for slot in &HELD {
                if slot.compare_exchange(0, p as usize, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                    COUNT.fetch_add(1, Ordering::SeqCst);
                    break;
                }
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= LARGE && COUNT.load(Ordering::SeqCst) > 0 {
            for slot in &HELD {
                if slot.compare_exchange(p as usize, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                    COUNT.fetch_sub(1, Ordering::SeqCst);
                    break;
                }
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}

#[global_allocator]
static GLOBAL: Watch = Watch;

const JS: &str = r#"
globalThis.at = (n, k, i) => (k * 37 + n + i * 7 + (i >> 8)) & 127;
globalThis.look = (b) => {
  const v = new Uint8Array(b), n = v.length;
  if (n === 0) return [0, 0, 0];
  const end = v[0] >= 200 ? v[0] : 0;
  if (end && n <= 2) return [n, 0, v[n - 1] === end ? end : "half"];
  for (let k = 1; k < 128; k++) {
    let ok = true;
    for (let i = end ? 1 : 0; i < n - (end ? 1 : 0); i++) if (v[i] !== at(n, k, i)) { ok = false; break; }
    if (ok) return [n, k, v[n - 1] === end || !end ? end : "half"];
  }
  return [n, "other bytes", end];
};
globalThis.write = (b, v) => { const a = new Uint8Array(b); a[0] = v; a[a.length - 1] = v; };
globalThis.move = (b) => b.transfer ? b.transfer() : structuredClone(b, { transfer: [b] });
"#;

struct Sys {
    context: v8::Global<v8::Context>,
    names: Vec<String>,
    live: HashMap<String, (v8::Global<v8::ArrayBuffer>, u64, u64)>,
    made: u64,
}

fn iso() -> &'static mut v8::Isolate {
    static ISO: OnceLock<log::Iso> = OnceLock::new();
    unsafe { &mut *ISO.get_or_init(log::isolate).isolate }
}

fn call<'s>(scope: &mut v8::PinScope<'s, '_>, name: &str, args: &[v8::Local<'s, v8::Value>]) -> v8::Local<'s, v8::Value> {
    let global = scope.get_current_context().global(scope);
    let key = v8::String::new(scope, name).unwrap();
    let f = global.get(scope, key.into()).unwrap();
    let f = v8::Local::<v8::Function>::try_from(f).unwrap();
    f.call(scope, global.into(), args).unwrap()
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let x = a["x"].as_str().unwrap_or("").to_string();
        let op = a["op"].as_str().unwrap();
        if op == "drop" {
            self.live.remove(&x);
        }
        let mut leaked = 0;
        if op == "gc" {
            // freed by the collector, perhaps on a thread of its own
            let want = self.live.values().filter(|b| b.1 as usize >= LARGE).count();
            for i in 0..50 {
                iso().low_memory_notification();
                leaked = COUNT.load(Ordering::SeqCst).saturating_sub(want);
                if leaked == 0 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(i));
            }
        }
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Local::new(scope, &self.context);
        let scope = &mut v8::ContextScope::new(scope, context);
        match op {
            "make" => {
                let n = a["n"].as_u64().unwrap();
                self.made += 1;
                let k = self.made;
                WATCHED.set(true);
                let mut v = Vec::with_capacity((n + a["room"].as_u64().unwrap()) as usize);
                v.extend((0..n).map(|i| ((k * 37 + n + i * 7 + (i >> 8)) & 127) as u8));
                let b = create_array_buffer_from_vec(scope, v);
                WATCHED.set(false);
                self.live.insert(x, (v8::Global::new(scope, b), n, k));
            }
            "write" => {
                let b = v8::Local::new(scope, &self.live[&x].0);
                let v = v8::Number::new(scope, a["v"].as_f64().unwrap());
                call(scope, "write", &[b.into(), v.into()]);
            }
            "move" => {
                let b = v8::Local::new(scope, &self.live[&x].0);
                let b = call(scope, "move", &[b.into()]);
                let b = v8::Local::<v8::ArrayBuffer>::try_from(b).unwrap();
                self.live.get_mut(&x).unwrap().0 = v8::Global::new(scope, b);
            }
            _ => {}
        }
        let mut r = Map::new();
        for name in &self.names {
            let mut e = json!({"n": 0, "k": 0, "end": 0});
            if let Some(b) = self.live.get(name) {
                let b = v8::Local::new(scope, &b.0);
                let v = call(scope, "look", &[b.into()]);
                let v = v8::json::stringify(scope, v).unwrap().to_rust_string_lossy(scope);
                let v: Value = serde_json::from_str(&v).unwrap();
                e = json!({"n": v[0], "k": v[1], "end": v[2]});
            }
            r.insert(name.clone(), e);
        }
        json!({"b": r, "leaked": leaked})
    }
}

pub fn replay(input: &Value, out: &str) {
    log::init_v8();
    mbt::replay(input, out, &mut |cfg| {
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Context::new(scope, Default::default());
        let global = v8::Global::new(scope, context);
        let scope = &mut v8::ContextScope::new(scope, context);
        let code = v8::String::new(scope, JS).unwrap();
        v8::Script::compile(scope, code, None).unwrap().run(scope).unwrap();
        Box::new(Sys {
            context: global,
            names: cfg["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            live: HashMap::new(),
            made: 0,
        })
    });
}
