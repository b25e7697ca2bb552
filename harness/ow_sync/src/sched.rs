//! The cooperative scheduler behind the controlled threads.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// Waiting at a scheduling point.
    Ready,
    /// Waiting for the lock at this address.
    Blocked(usize),
    /// Running between two scheduling points.
    Running,
    Finished,
}

struct State {
    st: Vec<St>,
    turn: Option<usize>,
    abort: bool,
}

pub struct Sched {
    state: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten()
}

impl Sched {
    fn wait_turn(&self, id: usize, st: St) {
        let mut s = self.state.lock().unwrap();
        s.st[id] = st;
        s.turn = None;
        self.cv.notify_all();
        while s.turn != Some(id) && !s.abort {
            s = self.cv.wait(s).unwrap();
        }
        s.st[id] = St::Running;
    }
}

pub fn controlled() -> bool {
    me().is_some()
}

/// A scheduling point. False on a thread that is not controlled.
pub fn point() -> bool {
    match me() {
        None => false,
        Some((s, id)) => {
            if std::thread::panicking() {
                return true;
            }
            s.wait_turn(id, St::Ready);
            true
        }
    }
}

/// The lock at `addr` is held by another thread.
pub fn blocked(addr: usize) {
    match me() {
        None => std::thread::yield_now(),
        Some((s, id)) => s.wait_turn(id, St::Blocked(addr)),
    }
}

pub fn released(addr: usize) {
    if let Some((s, _)) = me() {
        let mut st = s.state.lock().unwrap();
        for x in st.st.iter_mut() {
            if *x == St::Blocked(addr) {
                *x = St::Ready;
            }
        }
    }
}

/// The outcome of one controlled execution.
pub struct Outcome {
    /// The chosen thread at each step, and which threads could have been chosen.
    pub choices: Vec<(usize, Vec<usize>)>,
    /// No thread could run although some had not finished.
    pub deadlock: bool,
    pub panics: Vec<Option<String>>,
}

/// Runs the bodies as controlled threads; `choose` gets the step number, the
/// runnable threads and the thread that ran last, and returns an index into them.
pub fn run(
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    mut choose: impl FnMut(usize, &[usize], Option<usize>) -> usize,
) -> Outcome {
    let n = bodies.len();
    let sched = Arc::new(Sched {
        state: Mutex::new(State { st: vec![St::Running; n], turn: None, abort: false }),
        cv: Condvar::new(),
    });
    let mut joins = Vec::new();
    for (id, body) in bodies.into_iter().enumerate() {
        let s = sched.clone();
        joins.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), id)));
            point();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
            ME.with(|m| *m.borrow_mut() = None);
            let mut st = s.state.lock().unwrap();
            st.st[id] = St::Finished;
            st.turn = None;
            s.cv.notify_all();
            drop(st);
            r.err().map(|e| {
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into())
            })
        }));
    }
    let mut choices = Vec::new();
    let mut last = None;
    let mut deadlock = false;
    loop {
        let mut s = sched.state.lock().unwrap();
        while s.turn.is_some() || s.st.contains(&St::Running) {
            s = sched.cv.wait(s).unwrap();
        }
        let ready: Vec<usize> = (0..n).filter(|&i| s.st[i] == St::Ready).collect();
        if ready.is_empty() {
            if s.st.iter().any(|x| matches!(x, St::Blocked(_))) {
                deadlock = true;
            }
            break;
        }
        let k = choose(choices.len(), &ready, last).min(ready.len() - 1);
        let t = ready[k];
        choices.push((t, ready));
        last = Some(t);
        s.st[t] = St::Running;
        s.turn = Some(t);
        sched.cv.notify_all();
    }
    let panics = if deadlock {
        // The blocked threads cannot be ended; they are left behind.
        vec![None; n]
    } else {
        joins.into_iter().map(|j| j.join().unwrap_or(Some("panic".into()))).collect()
    };
    Outcome { choices, deadlock, panics }
}
