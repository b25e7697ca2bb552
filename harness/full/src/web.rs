//! The web APIs the runtime installs, exercised by a driver script (harness/js/web.js):
//! `step(op)` performs one action, then the microtasks run, then `observe()` tells.
use mbt::Sut;
use openworkers_runtime_v8::runtime::{bindings, streams, text_encoding};
use serde_json::{Value, json};

struct Sys {
    context: v8::Global<v8::Context>,
}

fn iso() -> &'static mut v8::Isolate {
    static mut ISO: Option<v8::OwnedIsolate> = None;
    #[allow(static_mut_refs)]
    unsafe {
        ISO.get_or_insert_with(|| {
            let platform = v8::new_default_platform(0, false).make_shared();
            v8::V8::initialize_platform(platform);
            v8::V8::initialize();
            v8::Isolate::new(Default::default())
        })
    }
}

fn call(scope: &mut v8::PinScope, name: &str, arg: &str) -> Result<String, String> {
    let tc = std::pin::pin!(v8::TryCatch::new(scope));
    let tc = &mut tc.init();
    let global = tc.get_current_context().global(tc);
    let key = v8::String::new(tc, name).unwrap();
    let f = global.get(tc, key.into()).unwrap();
    let f = v8::Local::<v8::Function>::try_from(f).map_err(|_| format!("no {name}"))?;
    let arg = v8::String::new(tc, arg).unwrap();
    match f.call(tc, global.into(), &[arg.into()]) {
        Some(r) => Ok(r.to_rust_string_lossy(tc)),
        None => Err(match tc.exception() {
            Some(e) => e.to_rust_string_lossy(tc),
            None => "terminated".into(),
        }),
    }
}

fn run_script(scope: &mut v8::PinScope, text: &str) {
    let tc = std::pin::pin!(v8::TryCatch::new(scope));
    let tc = &mut tc.init();
    let code = v8::String::new(tc, text).unwrap();
    let ok = v8::Script::compile(tc, code, None).and_then(|s| s.run(tc));
    if ok.is_none() {
        let e = tc.exception().map(|e| e.to_rust_string_lossy(tc));
        panic!("script: {e:?}");
    }
}

impl Sys {
    fn new(cfg: &Value) -> Self {
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Context::new(scope, Default::default());
        let global = v8::Global::new(scope, context);
        let scope = &mut v8::ContextScope::new(scope, context);
        run_script(scope, "globalThis.console = { log() {}, warn() {}, error() {}, info() {}, debug() {} };");
        bindings::setup_global_aliases(scope);
        bindings::setup_fetch_helpers(scope);
        text_encoding::setup_text_encoding_natives(scope);
        text_encoding::setup_text_encoding_classes(scope);
        streams::setup_readable_stream(scope);
        bindings::setup_blob(scope);
        bindings::setup_form_data(scope);
        bindings::setup_abort_controller(scope);
        bindings::setup_structured_clone(scope);
        bindings::setup_base64(scope);
        bindings::setup_url_search_params(scope);
        bindings::setup_url(scope);
        bindings::setup_headers(scope);
        bindings::setup_request(scope);
        bindings::setup_response(scope);
        run_script(scope, &std::fs::read_to_string(cfg["driver"].as_str().unwrap()).unwrap());
        scope.perform_microtask_checkpoint();
        if let Err(e) = call(scope, "make", &cfg.to_string()) {
            panic!("make: {e}");
        }
        scope.perform_microtask_checkpoint();
        Sys { context: global }
    }
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let scope = std::pin::pin!(v8::HandleScope::new(iso()));
        let scope = &mut scope.init();
        let context = v8::Local::new(scope, &self.context);
        let scope = &mut v8::ContextScope::new(scope, context);
        if let Err(e) = call(scope, "step", &a.to_string()) {
            return json!({"driver": e});
        }
        scope.perform_microtask_checkpoint();
        match call(scope, "observe", "") {
            Ok(t) => serde_json::from_str(&t).unwrap_or(json!({"unreadable": t})),
            Err(e) => json!({"driver": e}),
        }
    }
}

pub fn replay(input: &Value, out: &str) {
    mbt::replay(input, out, &mut |cfg| Box::new(Sys::new(cfg)));
}
