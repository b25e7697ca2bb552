//! Runs scripts generated from the specification against the real code and
//! records what it does. The verdict is reached outside, against the specification.
use serde_json::{Value, json};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

pub use serde_json;

/// The system under test behind a specification: one instance per path.
pub trait Sut {
    /// Performs one action and returns what could be observed.
    fn step(&mut self, act: &Value) -> Value;
    /// The end of the path: the observation after everything was let go.
    fn finish(&mut self) -> Value {
        Value::Null
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<(usize, usize)> = Mutex::new((0, 0));

pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Ends the process when nothing has progressed for `secs`; the results file then
/// holds the steps done so far and a "hang" line.
pub fn watchdog(out: String, secs: u64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = PROGRESS.load(Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= secs * 4 {
                let (p, s) = *WHERE.lock().unwrap();
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(&out) {
                    let _ = writeln!(f, "\n{}", json!({"p": p, "s": s, "hang": true}));
                }
                unsafe { _exit(3) };
            }
        }
    });
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

/// Input: {"cfg": .., "paths": [[act, ..], ..]}. Output: one line per path,
/// {"p": i, "o": [obs, ..]}; a panic gives the observation {"panic": text}.
pub fn replay(input: &Value, out: &str, make: &mut dyn FnMut(&Value) -> Box<dyn Sut>) {
    let mut w = BufWriter::new(File::create(out).unwrap());
    w.flush().unwrap();
    watchdog(out.to_string(), input["hang_s"].as_u64().unwrap_or(20));
    let cfg = &input["cfg"];
    let only = input["first"].as_u64().unwrap_or(0) as usize;
    for (i, path) in input["paths"].as_array().unwrap().iter().enumerate() {
        if i < only {
            continue;
        }
        *WHERE.lock().unwrap() = (i, 0);
        tick();
        writeln!(w, "{}", json!({"start": i})).unwrap();
        w.flush().unwrap();
        let mut obs = Vec::new();
        let made = catch_unwind(AssertUnwindSafe(|| make(cfg)));
        match made {
            Err(e) => obs.push(json!({"panic": panic_text(&*e)})),
            Ok(mut sut) => {
                let mut dead = false;
                for (j, act) in path.as_array().unwrap().iter().enumerate() {
                    *WHERE.lock().unwrap() = (i, j);
                    tick();
                    match catch_unwind(AssertUnwindSafe(|| sut.step(act))) {
                        Ok(o) => obs.push(o),
                        Err(e) => {
                            obs.push(json!({"panic": panic_text(&*e)}));
                            dead = true;
                            break;
                        }
                    }
                }
                let fin = if dead {
                    std::mem::forget(sut);
                    Value::Null
                } else {
                    match catch_unwind(AssertUnwindSafe(move || {
                        let f = sut.finish();
                        drop(sut);
                        f
                    })) {
                        Ok(o) => o,
                        Err(e) => json!({"panic": panic_text(&*e)}),
                    }
                };
                writeln!(w, "{}", json!({"p": i, "o": obs, "fin": fin})).unwrap();
                continue;
            }
        }
        writeln!(w, "{}", json!({"p": i, "o": obs, "fin": null})).unwrap();
    }
    writeln!(w, "{}", json!({"end": true})).unwrap();
    w.flush().unwrap();
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// One execution of concurrent calls: `events` is the history of calls and returns
/// in the order they happened; scheduling points lie inside the calls.
pub struct Exec {
    pub events: Vec<Value>,
    pub outcome: ow_sync::sched::Outcome,
}

/// Enumerates the schedules of a concurrent program depth-first with at most
/// `preempt` preemptive switches, up to `limit` executions; then random ones.
pub fn explore(
    preempt: usize,
    limit: usize,
    random: usize,
    rng: &mut Rng,
    mut exec: impl FnMut(&mut dyn FnMut(usize, &[usize], Option<usize>) -> usize) -> Exec,
    mut seen: impl FnMut(Exec),
) -> (usize, bool) {
    let mut runs = 0;
    let mut complete = true;
    // few switches first: each bound by itself, within the limit overall
    for bound in 0..=preempt {
      let mut prefix: Vec<usize> = Vec::new();
      loop {
        let p = prefix.clone();
        let e = exec(&mut |step, ready, last| {
            if step < p.len() {
                ready.iter().position(|&t| t == p[step]).unwrap_or(0)
            } else {
                last.and_then(|l| ready.iter().position(|&t| t == l)).unwrap_or(0)
            }
        });
        tick();
        runs += 1;
        // next prefix: the deepest step with an untried alternative within the bound
        let ch = &e.outcome.choices;
        let mut next = None;
        'outer: for i in (0..ch.len()).rev() {
            let mut pre = 0;
            for k in 1..i {
                if ch[k].0 != ch[k - 1].0 && ch[k].1.contains(&ch[k - 1].0) {
                    pre += 1;
                }
            }
            // order of alternatives: the default first, then the rest ascending
            let (cur, ready) = &ch[i];
            let def = if i > 0 && ready.contains(&ch[i - 1].0) { ch[i - 1].0 } else { ready[0] };
            let mut order = vec![def];
            order.extend(ready.iter().copied().filter(|&t| t != def));
            let pos = order.iter().position(|t| t == cur).unwrap();
            for &t in &order[pos + 1..] {
                let preemptive = i > 0 && ready.contains(&ch[i - 1].0) && t != ch[i - 1].0;
                if pre + preemptive as usize <= bound {
                    let mut n: Vec<usize> = ch[..i].iter().map(|c| c.0).collect();
                    n.push(t);
                    next = Some(n);
                    break 'outer;
                }
            }
        }
        seen(e);
        match next {
            Some(n) if runs < limit => prefix = n,
            Some(_) => {
                complete = false;
                break;
            }
            None => break,
        }
    }
      if !complete {
        break;
      }
    }
    if !complete {
        for _ in 0..random {
            let e = exec(&mut |_, ready, last| {
                if let Some(l) = last.and_then(|l| ready.iter().position(|&t| t == l)) {
                    if rng.below(3) != 0 {
                        return l;
                    }
                }
                rng.below(ready.len())
            });
            tick();
            runs += 1;
            seen(e);
        }
    }
    (runs, complete)
}
