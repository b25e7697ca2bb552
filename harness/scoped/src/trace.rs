//! Sizes of values and Tracked (spec/Traceable.tla).
use crate::gc::world;
use crate::log;
use mbt::Sut;
use openworkers_runtime_v8::DeriveGcTraceable;
use openworkers_runtime_v8::gc::{ExternalMemoryGuard, GcTraceable, JsLock, Tracked, tracked_guard};
use ow_sync::atomic::{AtomicI64, Ordering};
use serde_json::{Value, json};
use std::rc::Rc;
use std::sync::Arc;

/// A value of any kind, one word wide; stands for what it holds.
pub struct D(Box<Node>);
/// The same, five words wide.
pub struct W {
    d: D,
    _pad: [u64; 4],
}

enum Keep<T> {
    No,
    Strong(#[allow(dead_code)] T),
    Two(#[allow(dead_code)] T, #[allow(dead_code)] T),
}

#[derive(DeriveGcTraceable)]
struct None3 {
    a: D,
    b: D,
    c: D,
}
#[derive(DeriveGcTraceable)]
struct First {
    #[gc(track)]
    a: D,
    b: D,
    c: D,
}
#[derive(DeriveGcTraceable)]
struct Outer {
    #[gc(track)]
    a: D,
    b: D,
    #[gc(track)]
    c: D,
}
#[derive(DeriveGcTraceable)]
struct All3 {
    #[gc(track)]
    a: D,
    #[gc(track)]
    b: D,
    #[gc(track)]
    c: D,
}
#[derive(DeriveGcTraceable)]
struct Tuple2(D, #[gc(track)] D);
#[derive(DeriveGcTraceable)]
struct TupleAll(#[gc(track)] D, #[gc(track)] D);
#[derive(DeriveGcTraceable)]
struct Generic<T: GcTraceable, U>
where
    U: Sized,
{
    #[gc(track)]
    a: T,
    b: U,
}
#[derive(DeriveGcTraceable)]
struct Unit;
/// Fields with other attributes, among, before and after the one that counts.
#[allow(dead_code)]
#[derive(DeriveGcTraceable)]
struct Attrs<'a, const N: usize, T: GcTraceable + 'a> {
    /// Documented.
    #[gc(track)]
    a: D,
    #[allow(unused)]
    /// Not tracked.
    b: D,
    #[allow(unused)]
    /** Of a generic type. */
    #[gc(track)]
    #[cfg(not(any()))]
    pub(crate) r#type: T,
    #[gc(track)]
    #[allow(unused)]
    d: Vec<T>,
    _e: std::marker::PhantomData<&'a [u8; N]>,
}
/// More fields than fit a digit.
#[allow(dead_code)]
#[derive(DeriveGcTraceable)]
struct Tuple12(
    #[gc(track)] D,
    D,
    D,
    D,
    D,
    D,
    D,
    D,
    D,
    #[gc(track)] D,
    #[gc(track)] D,
    #[allow(dead_code)]
    #[gc(track)]
    D,
);
mod own {
    /// Where the crate is called otherwise.
    pub use openworkers_runtime_v8 as other;
    #[derive(other::DeriveGcTraceable)]
    #[gc(crate_path = "crate::trace::own::other")]
    #[allow(dead_code)]
    pub struct Path(pub super::D, #[gc(track)] pub super::D);
}

enum Node {
    Vec8(Vec<u8>),
    Str(String),
    Bytes(bytes::Bytes, #[allow(dead_code)] Option<bytes::Bytes>),
    Unit(Unit),
    Opt(Option<D>),
    OptW(Option<W>),
    Box(Box<D>),
    BoxW(Box<W>),
    Rc(Rc<D>, Keep<Rc<D>>, #[allow(dead_code)] std::rc::Weak<D>),
    RcW(Rc<W>, Keep<Rc<W>>, #[allow(dead_code)] std::rc::Weak<W>),
    Arc(Arc<D>, Keep<Arc<D>>, #[allow(dead_code)] std::sync::Weak<D>),
    ArcW(Arc<W>, Keep<Arc<W>>, #[allow(dead_code)] std::sync::Weak<W>),
    Vec(Vec<D>),
    VecW(Vec<W>),
    None3(None3),
    First(First),
    Outer(Outer),
    All3(All3),
    Tuple2(Tuple2),
    TupleAll(TupleAll),
    Generic(Generic<D, D>),
    Attrs(Attrs<'static, 3, D>),
    Tuple12(Tuple12),
    Path(own::Path),
}

impl GcTraceable for D {
    fn external_memory_size(&self) -> usize {
        match &*self.0 {
            Node::Vec8(x) => x.external_memory_size(),
            Node::Str(x) => x.external_memory_size(),
            Node::Bytes(x, _) => x.external_memory_size(),
            Node::Unit(x) => x.external_memory_size(),
            Node::Opt(x) => x.external_memory_size(),
            Node::OptW(x) => x.external_memory_size(),
            Node::Box(x) => x.external_memory_size(),
            Node::BoxW(x) => x.external_memory_size(),
            Node::Rc(x, ..) => x.external_memory_size(),
            Node::RcW(x, ..) => x.external_memory_size(),
            Node::Arc(x, ..) => x.external_memory_size(),
            Node::ArcW(x, ..) => x.external_memory_size(),
            Node::Vec(x) => x.external_memory_size(),
            Node::VecW(x) => x.external_memory_size(),
            Node::None3(x) => x.external_memory_size(),
            Node::First(x) => x.external_memory_size(),
            Node::Outer(x) => x.external_memory_size(),
            Node::All3(x) => x.external_memory_size(),
            Node::Tuple2(x) => x.external_memory_size(),
            Node::TupleAll(x) => x.external_memory_size(),
            Node::Generic(x) => x.external_memory_size(),
            Node::Attrs(x) => x.external_memory_size(),
            Node::Tuple12(x) => x.external_memory_size(),
            Node::Path(x) => x.external_memory_size(),
        }
    }
}
impl GcTraceable for W {
    fn external_memory_size(&self) -> usize {
        self.d.external_memory_size()
    }
}

macro_rules! shared {
    ($ty:ident, $v:expr, $share:expr) => {{
        let x = $ty::new($v);
        let weak = if $share == "weak" || $share == "both" { $ty::downgrade(&x) } else { Default::default() };
        let keep = match $share {
            "strong" | "both" => Keep::Strong(x.clone()),
            "three" => Keep::Two(x.clone(), x.clone()),
            _ => Keep::No,
        };
        (x, keep, weak)
    }};
}

fn wide(d: D) -> W {
    W { d, _pad: [0; 4] }
}

pub fn build(t: &Value) -> D {
    let n = t["n"].as_u64().unwrap_or(0) as usize;
    let w = t["w"].as_u64() == Some(40);
    let one = || build(&t["v"]);
    let share = t["share"].as_str().unwrap_or("");
    let node = match t["k"].as_str().unwrap() {
        "vec8" => Node::Vec8(Vec::with_capacity(n)),
        "str" => {
            let mut s = String::with_capacity(n);
            if n > 3 {
                s.push('x');
            }
            Node::Str(s)
        }
        "bytes" => Node::Bytes(bytes::Bytes::from(vec![1u8; n + 4]).slice(2..n + 2), None),
        "cbytes" => {
            let b = bytes::Bytes::from(vec![1u8; n]);
            Node::Bytes(b.clone(), Some(b))
        }
        "sbytes" => Node::Bytes(bytes::Bytes::from_static(&[7u8; 1 << 17][..n]), None),
        "wbytes" => Node::Bytes(bytes::Bytes::from(vec![1u8; n]), None),
        "unit" => Node::Unit(Unit),
        "none" => Node::Opt(None),
        "some" if w => Node::OptW(Some(wide(one()))),
        "some" => Node::Opt(Some(one())),
        "box" if w => Node::BoxW(Box::new(wide(one()))),
        "box" => Node::Box(Box::new(one())),
        "rc" if w => {
            let (a, b, c) = shared!(Rc, wide(one()), share);
            Node::RcW(a, b, c)
        }
        "rc" => {
            let (a, b, c) = shared!(Rc, one(), share);
            Node::Rc(a, b, c)
        }
        "arc" if w => {
            let (a, b, c) = shared!(Arc, wide(one()), share);
            Node::ArcW(a, b, c)
        }
        "arc" => {
            let (a, b, c) = shared!(Arc, one(), share);
            Node::Arc(a, b, c)
        }
        "vec" if w => {
            let mut v = Vec::with_capacity(n);
            v.extend(t["v"].as_array().unwrap().iter().map(|x| wide(build(x))));
            Node::VecW(v)
        }
        "vec" => {
            let mut v = Vec::with_capacity(n);
            v.extend(t["v"].as_array().unwrap().iter().map(build));
            Node::Vec(v)
        }
        "struct" => {
            let f = |i: usize| build(&t["v"][i]);
            match t["shape"].as_str().unwrap() {
                "none3" => Node::None3(None3 { a: f(0), b: f(1), c: f(2) }),
                "first" => Node::First(First { a: f(0), b: f(1), c: f(2) }),
                "outer" => Node::Outer(Outer { a: f(0), b: f(1), c: f(2) }),
                "all3" => Node::All3(All3 { a: f(0), b: f(1), c: f(2) }),
                "tuple2" => Node::Tuple2(Tuple2(f(0), f(1))),
                "tupleall" => Node::TupleAll(TupleAll(f(0), f(1))),
                "generic" => Node::Generic(Generic { a: f(0), b: f(1) }),
                "attrs" => Node::Attrs(Attrs { a: f(0), b: f(1), r#type: f(2), d: Vec::new(), _e: Default::default() }),
                "path" => Node::Path(own::Path(f(0), f(1))),
                "tuple12" => {
                    let u = || D(Box::new(Node::Unit(Unit)));
                    let z = || D(Box::new(Node::Vec8(Vec::with_capacity(1_000_000))));
                    Node::Tuple12(Tuple12(f(0), z(), z(), z(), z(), z(), z(), z(), z(), u(), f(1), f(2)))
                }
                x => panic!("{x}"),
            }
        }
        // a great number of one value
        "lot" => {
            let c = t["c"].as_u64().unwrap() as usize;
            let mut v = Vec::with_capacity(c);
            v.extend((0..c).map(|_| one()));
            Node::Vec(v)
        }
        x => panic!("{x}"),
    };
    D(Box::new(node))
}

enum Live {
    No,
    Tracked(Tracked<D>),
    Guard(#[allow(dead_code)] ExternalMemoryGuard),
}

struct Sys {
    pend: Arc<AtomicI64>,
    lock: Option<JsLock>,
    live: Live,
    ext: i64,
}

impl Sut for Sys {
    fn step(&mut self, a: &Value) -> Value {
        let iso = world().isos["A"];
        match a["op"].as_str().unwrap() {
            "size" => return json!({"size": build(&a["v"]).external_memory_size()}),
            "lock" => self.lock = Some(unsafe { JsLock::new(&mut *iso.isolate, &self.pend) }),
            "unlock" => self.lock = None,
            "track" => self.live = Live::Tracked(Tracked::new(build(&a["v"]))),
            "guard" => self.live = Live::Guard(tracked_guard(&build(&a["v"]))),
            "mutate" => {
                if let Live::Tracked(t) = &mut self.live {
                    *t.get_mut() = build(&a["v"]);
                    assert_eq!(t.get().external_memory_size(), (**t).external_memory_size());
                }
            }
            "update" => {
                if let Live::Tracked(t) = &mut self.live {
                    t.update_size();
                }
            }
            "inner" => {
                if let Live::Tracked(t) = std::mem::replace(&mut self.live, Live::No) {
                    std::mem::forget(t.into_inner());
                }
            }
            "drop" => self.live = Live::No,
            x => panic!("{x}"),
        }
        for e in log::take() {
            if e.kind == log::ADJUST && e.what == iso.raw {
                self.ext += e.value;
            }
        }
        json!({"ext": self.ext, "pend": self.pend.load(Ordering::SeqCst)})
    }
    fn finish(&mut self) -> Value {
        self.live = Live::No;
        self.lock = None;
        log::take();
        Value::Null
    }
}

pub fn replay(input: &Value, out: &str) {
    world();
    assert_eq!((size_of::<D>(), size_of::<W>()), (8, 40));
    mbt::replay(input, out, &mut |_| {
        log::take();
        Box::new(Sys { pend: Arc::new(AtomicI64::new(0)), lock: None, live: Live::No, ext: 0 })
    });
}
