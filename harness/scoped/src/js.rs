//! JavaScript the crate installs, exercised by a driver script (harness/js):
//! `step(op)` performs one action, then the microtasks run, then `observe()` tells.
use crate::log;
use mbt::Sut;
use openworkers_runtime_v8::runtime::{crypto, streams, text_encoding};
use serde_json::{Value, json};
use std::sync::OnceLock;

struct Sys {
    context: v8::Global<v8::Context>,
}

fn iso() -> &'static mut v8::Isolate {
    static ISO: OnceLock<log::Iso> = OnceLock::new();
    unsafe { &mut *ISO.get_or_init(log::isolate).isolate }
}

fn call(scope: &mut v8::PinScope, name: &str, arg: &str) -> Result<String, String> {
    let tc = std::pin::pin!(v8::TryCatch::new(scope));
    let tc = &mut tc.init();
    let global = tc.get_current_context().global(tc);
    let key = v8::String::new(tc, name).unwrap();
    let f = global.get(tc, key.into()).unwrap();
    let f = v8::Local::<v8::Function>::try_from(f).map_err(|_| format!("no {name}"))?;
    let arg = v8::String::new(tc, arg).unwrap();
    match f.call(tc, global.into(), &[arg.into()]) {
        Some(r) => Ok(r.to_rust_string_lossy(tc)),
        None => Err(match tc.exception() {
            Some(e) => e.to_rust_string_lossy(tc),
            None => "terminated".into(),
        }),
    }
}

fn run_script(scope: &mut v8::PinScope, text: &str) {
    let tc = std::pin::pin!(v8::TryCatch::new(scope));
    let tc = &mut tc.init();
    let code = v8::String::new(tc, text).unwrap();
    let ok = v8::Script::compile(tc, code, None).and_then(|s| s.run(tc));
    if ok.is_none() {
        let e = tc.exception().map(|e| e.to_rust_string_lossy(tc));
        panic!("script: {e:?}");
    }
}

impl Sys {
    fn new(cfg: &Value) -> Self {
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Context::new(scope, Default::default());
        let global = v8::Global::new(scope, context);
        let scope = &mut v8::ContextScope::new(scope, context);
        for what in cfg["setup"].as_array().unwrap() {
            match what.as_str().unwrap() {
                "streams" => streams::setup_readable_stream(scope),
                "text" => {
                    text_encoding::setup_text_encoding_natives(scope);
                    text_encoding::setup_text_encoding_classes(scope);
                }
                "crypto" => crypto::setup_crypto(scope),
                file => run_script(scope, &std::fs::read_to_string(file).unwrap()),
            }
        }
        scope.perform_microtask_checkpoint();
        if let Err(e) = call(scope, "make", &cfg["js"].to_string()) {
            panic!("make: {e}");
        }
        scope.perform_microtask_checkpoint();
        Sys { context: global }
    }
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Local::new(scope, &self.context);
        let scope = &mut v8::ContextScope::new(scope, context);
        if let Err(e) = call(scope, "step", &a.to_string()) {
            return json!({"driver": e});
        }
        scope.perform_microtask_checkpoint();
        match call(scope, "observe", "") {
            Ok(t) => serde_json::from_str(&t).unwrap_or(json!({"unreadable": t})),
            Err(e) => json!({"driver": e}),
        }
    }
}

pub fn replay(input: &Value, out: &str) {
    log::init_v8();
    mbt::replay(input, out, &mut |cfg| Box::new(Sys::new(cfg)));
}
