//! What the crate asked of V8, as the shim saw it.
use std::sync::{Mutex, mpsc};

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Entry {
    pub kind: i64,
    pub what: usize,
    pub value: i64,
    pub thread: i64,
}
pub const GLOBAL_NEW: i64 = 1;
pub const GLOBAL_RESET: i64 = 2;
pub const ADJUST: i64 = 3;
pub const TERMINATE: i64 = 4;
pub const NEAR_LIMIT: i64 = 6;

unsafe extern "C" {
    fn ow_log_enable(on: i32);
    fn ow_log_take(out: *mut Entry, max: usize) -> usize;
    fn pthread_self() -> i64;
}
pub fn enable() {
    unsafe { ow_log_enable(1) }
}
pub fn take() -> Vec<Entry> {
    let mut all = Vec::new();
    loop {
        let mut buf = [Entry { kind: 0, what: 0, value: 0, thread: 0 }; 256];
        let n = unsafe { ow_log_take(buf.as_mut_ptr(), buf.len()) };
        all.extend_from_slice(&buf[..n]);
        if n < buf.len() {
            return all;
        }
    }
}
pub fn this_thread() -> i64 {
    unsafe { pthread_self() }
}

/// An isolate that is never disposed of, with the address V8 knows it by.
#[derive(Clone, Copy)]
pub struct Iso {
    pub isolate: *mut v8::Isolate,
    pub raw: usize,
}
unsafe impl Send for Iso {}
unsafe impl Sync for Iso {}

pub fn init_v8() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let platform = v8::new_default_platform(0, false).make_shared();
        v8::V8::initialize_platform(platform);
        v8::V8::initialize();
    });
}

pub fn isolate() -> Iso {
    init_v8();
    enable();
    let mut iso = Box::new(v8::Isolate::new(Default::default()));
    let isolate: &mut v8::Isolate = &mut iso;
    let isolate = isolate as *mut v8::Isolate;
    take();
    unsafe { (*isolate).adjust_amount_of_external_allocated_memory(0) };
    let raw = take().iter().find(|e| e.kind == ADJUST).unwrap().what;
    std::mem::forget(iso);
    Iso { isolate, raw }
}

type Job = Box<dyn FnOnce() + Send>;
/// A thread that does what it is told, one job at a time.
pub struct Hand {
    tx: Mutex<mpsc::Sender<Job>>,
}
impl Hand {
    pub fn new() -> Self {
        let (tx, rx) = mpsc::channel::<Job>();
        std::thread::spawn(move || {
            for job in rx {
                job();
            }
        });
        Self { tx: Mutex::new(tx) }
    }
    /// A panic of the job is one of the caller.
    pub fn run<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> R {
        let (tx, rx) = mpsc::channel();
        self.tx
            .lock()
            .unwrap()
            .send(Box::new(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let _ = tx.send(r.map_err(|e| mbt::panic_text(&*e)));
            }))
            .unwrap();
        match rx.recv().unwrap() {
            Ok(r) => r,
            Err(e) => panic!("{e}"),
        }
    }
}
