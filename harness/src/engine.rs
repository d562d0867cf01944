//! Exhaustive exploration: every case of every space of a property, in index order,
//! over all cores. A space is finite and is given by its index function, so nothing
//! is sampled and every case can be named by (space, index).

use std::{
    cell::{Cell, RefCell},
    collections::HashSet,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
    },
    time::{Duration, Instant},
};

use crate::case::{Case, Cfg};

pub enum Shape {
    /// All sequences of tokens with `min..=max` of them.
    Seq {
        tokens: Vec<String>,
        min: usize,
        max: usize,
    },
    /// All choices of one string per slot.
    Slots(Vec<Vec<String>>),
    /// All edits of texts, given in pieces: of each choice of `n` pieces, every one is
    /// left out, doubled, exchanged with the next, follows a token or is replaced by one.
    Edits {
        texts: Vec<Vec<String>>,
        tokens: Vec<String>,
        n: usize,
    },
}

/// Ways to choose `n` of `of`.
fn choices(of: u64, n: usize) -> u64 {
    (0..n as u64).fold(1, |c, i| c * of.saturating_sub(i) / (i + 1))
}

pub struct Space {
    pub name: String,
    pub shape: Shape,
    /// (before, after) of the text made by the shape.
    pub wraps: Vec<(String, String)>,
    pub cfgs: Vec<&'static Cfg>,
}

pub fn v(s: &[&str]) -> Vec<String> {
    s.iter().map(|s| s.to_string()).collect()
}

/// All concatenations of `min..=max` of the tokens (to be used as one slot).
pub fn words(tokens: &[&str], min: usize, max: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer = vec![String::new()];
    for n in 0..=max {
        if n >= min {
            out.extend(layer.iter().cloned());
        }
        if n < max {
            layer = layer
                .iter()
                .flat_map(|l| tokens.iter().map(move |t| format!("{l}{t}")))
                .collect();
        }
    }
    out
}

impl Space {
    pub fn seq(name: &str, tokens: &[&str], min: usize, max: usize) -> Space {
        Space {
            name: name.to_owned(),
            shape: Shape::Seq {
                tokens: v(tokens),
                min,
                max,
            },
            wraps: vec![(String::new(), String::new())],
            cfgs: vec![&Cfg::BASE],
        }
    }

    pub fn slots(name: &str, slots: Vec<Vec<String>>) -> Space {
        Space {
            name: name.to_owned(),
            shape: Shape::Slots(slots),
            wraps: vec![(String::new(), String::new())],
            cfgs: vec![&Cfg::BASE],
        }
    }

    pub fn edits(name: &str, texts: Vec<Vec<String>>, tokens: &[&str], n: usize) -> Space {
        Space {
            name: name.to_owned(),
            shape: Shape::Edits { texts, tokens: v(tokens), n },
            wraps: vec![(String::new(), String::new())],
            cfgs: vec![&Cfg::BASE],
        }
    }

    pub fn wrap(mut self, wraps: &[(&str, &str)]) -> Space {
        self.wraps = wraps
            .iter()
            .map(|w| (w.0.to_owned(), w.1.to_owned()))
            .collect();
        self
    }

    pub fn cfg(mut self, cfgs: &[&'static Cfg]) -> Space {
        self.cfgs = cfgs.to_vec();
        self
    }

    fn inner(&self) -> u64 {
        match &self.shape {
            Shape::Seq { tokens, min, max } => {
                (*min..=*max).map(|n| (tokens.len() as u64).pow(n as u32)).sum()
            }
            Shape::Slots(s) => s.iter().map(|s| s.len() as u64).product(),
            Shape::Edits { texts, tokens, n } => {
                let ops = (3 + 2 * tokens.len() as u64).pow(*n as u32);
                texts.iter().map(|t| choices(t.len() as u64, *n) * ops).sum()
            }
        }
    }

    pub fn size(&self) -> u64 {
        self.inner() * (self.wraps.len() * self.cfgs.len()) as u64
    }

    pub fn text(&self, idx: u64, out: &mut String) -> &'static Cfg {
        out.clear();
        let nc = self.cfgs.len() as u64;
        let nw = self.wraps.len() as u64;
        let cfg = self.cfgs[(idx % nc) as usize];
        let w = &self.wraps[(idx / nc % nw) as usize];
        let mut i = idx / nc / nw;
        out.push_str(&w.0);
        match &self.shape {
            Shape::Seq { tokens, min, max } => {
                let k = tokens.len() as u64;
                for n in *min..=*max {
                    let c = k.pow(n as u32);
                    if i < c {
                        let mut div = c;
                        for _ in 0..n {
                            div /= k;
                            out.push_str(&tokens[(i / div % k) as usize]);
                        }
                        break;
                    }
                    i -= c;
                }
            }
            Shape::Slots(s) => {
                let mut div: u64 = s.iter().map(|s| s.len() as u64).product();
                for slot in s {
                    div /= slot.len() as u64;
                    out.push_str(&slot[(i / div % slot.len() as u64) as usize]);
                }
            }
            Shape::Edits { texts, tokens, n } => {
                let k = tokens.len() as u64;
                let ops = 3 + 2 * k;
                for t in texts {
                    let size = choices(t.len() as u64, *n) * ops.pow(*n as u32);
                    if i >= size {
                        i -= size;
                        continue;
                    }
                    let mut pieces: Vec<&str> = t.iter().map(String::as_str).collect();
                    // The last place first, so that earlier ones stay where they are.
                    let mut which = i / ops.pow(*n as u32);
                    for m in (1..=*n).rev() {
                        let mut at = m as u64 - 1;
                        while choices(at + 1, m) <= which {
                            at += 1;
                        }
                        which -= choices(at, m);
                        let at = at as usize;
                        let op = i % ops;
                        i /= ops;
                        match op {
                            0 => {
                                pieces.remove(at);
                            }
                            1 => pieces.insert(at, pieces[at]),
                            2 if at + 1 < pieces.len() => pieces.swap(at, at + 1),
                            2 => {}
                            _ if op < 3 + k => pieces.insert(at, &tokens[(op - 3) as usize]),
                            _ => pieces[at] = &tokens[(op - 3 - k) as usize],
                        }
                    }
                    out.extend(pieces);
                    break;
                }
            }
        }
        out.push_str(&w.1);
        cfg
    }
}

impl Prop {
    pub fn all_spaces(&self, thorough: bool) -> Vec<Space> {
        let mut s = (self.spaces)(thorough);
        s.extend(crate::props::neighbours(self.id, thorough));
        s.extend(crate::documents::spaces(self, thorough));
        // (For development.)
        if let Ok(o) = std::env::var("MC_ONLY") {
            s.retain(|s| s.name.contains(&o));
        }
        s
    }
}

pub struct Outcome {
    /// Hash of the canonical outcome.
    pub hash: u64,
    /// Executions of the implementation.
    pub execs: u64,
    /// Some: the property is broken.
    pub fail: Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub mask: u32,
    pub check: fn(&Prop, &Case) -> Outcome,
    pub spaces: fn(thorough: bool) -> Vec<Space>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    pub static IN_MODEL: Cell<bool> = const { Cell::new(false) };
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Counts one transition of the reference model.
#[inline]
pub fn step() {
    STEPS.with(|s| s.set(s.get() + 1));
}

/// Runs code of the reference model (a panic there is an error of the check).
pub fn in_model<T>(f: impl FnOnce() -> T) -> T {
    IN_MODEL.with(|m| m.set(true));
    let r = f();
    IN_MODEL.with(|m| m.set(false));
    r
}

pub fn hash(s: &str) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
    }));
}

/// What became of one case.
pub enum One {
    Fine(u64, u64),
    Broken(String),
    ModelError(String),
}

pub fn one(p: &Prop, case: &Case) -> One {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(p, case))) {
        Ok(o) => match o.fail {
            None => One::Fine(o.hash, o.execs),
            Some(m) => One::Broken(m),
        },
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if IN_MODEL.with(|m| m.replace(false)) {
                One::ModelError(m)
            } else {
                One::Broken(m)
            }
        }
    }
}

/// Shared with the parent process, so that it can tell which cases were running when
/// this process was killed.
pub struct SlotFile(*mut u64, usize);
unsafe impl Send for SlotFile {}
unsafe impl Sync for SlotFile {}

impl SlotFile {
    pub fn map(path: &str, n: usize) -> SlotFile {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len((n * 16) as u64).expect("slot file");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "slot file");
        SlotFile(p as *mut u64, n)
    }

    fn cell(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.1 * 2);
        unsafe { AtomicU64::from_ptr(self.0.add(i)) }
    }

    /// Index + 1 of the case that thread `i` is running, 0 if none.
    pub fn case(&self, i: usize) -> &AtomicU64 {
        self.cell(i * 2)
    }

    pub fn since(&self, i: usize) -> &AtomicU64 {
        self.cell(i * 2 + 1)
    }
}

pub struct Report {
    pub cases: u64,
    pub total: u64,
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    /// global index, message
    pub failures: Vec<(u64, String)>,
    pub model_errors: Vec<(u64, String)>,
    pub capped: bool,
    pub per_space: Vec<(String, u64)>,
}

pub fn locate(spaces: &[Space], mut g: u64) -> (usize, u64) {
    for (i, s) in spaces.iter().enumerate() {
        if g < s.size() {
            return (i, g);
        }
        g -= s.size();
    }
    panic!("index out of range")
}

pub struct Limits {
    pub threads: usize,
    pub wall: Duration,
    pub hang: Duration,
    pub max_fail: usize,
}

pub fn explore(
    p: &Prop,
    spaces: &[Space],
    slots: &SlotFile,
    lim: &Limits,
    skip: &(dyn Fn(&str, &Cfg) -> bool + Sync),
) -> Report {
    let t0 = Instant::now();
    let total: u64 = spaces.iter().map(Space::size).sum();
    let chunk = (total / (lim.threads as u64 * 64)).clamp(1, 512);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let failures = Mutex::new(vec![]);
    let model_errors = Mutex::new(vec![]);
    let sums = Mutex::new((0u64, 0u64, 0u64, HashSet::<u64>::new()));
    let hang = Mutex::new(None);
    std::thread::scope(|sc| {
        for th in 0..lim.threads {
            let (next, stop, done, failures, model_errors, sums, capped) =
                (&next, &stop, &done, &failures, &model_errors, &sums, &capped);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut text = String::new();
                    let mut states = HashSet::new();
                    let (mut cases, mut execs) = (0, 0);
                    'outer: while !stop.load(Relaxed) {
                        if t0.elapsed() > lim.wall {
                            capped.store(true, Relaxed);
                            break;
                        }
                        let from = next.fetch_add(chunk, Relaxed);
                        if from >= total {
                            break;
                        }
                        let (mut si, mut li) = locate(spaces, from);
                        for g in from..(from + chunk).min(total) {
                            while li >= spaces[si].size() {
                                li = 0;
                                si += 1;
                            }
                            let cfg = spaces[si].text(li, &mut text);
                            li += 1;
                            slots
                                .since(th)
                                .store(t0.elapsed().as_millis() as u64, Relaxed);
                            slots.case(th).store(g + 1, Relaxed);
                            let case = Case::decode(&text, cfg);
                            let r = one(p, &case);
                            slots.case(th).store(0, Relaxed);
                            cases += 1;
                            match r {
                                One::Fine(h, e) => {
                                    states.insert(h);
                                    execs += e;
                                }
                                One::Broken(m) => {
                                    if skip(&text, cfg) {
                                        continue;
                                    }
                                    let mut f = failures.lock().unwrap();
                                    f.push((g, m));
                                    if f.len() >= lim.max_fail {
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                                One::ModelError(m) => {
                                    model_errors.lock().unwrap().push((g, m));
                                    stop.store(true, Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    let mut s = sums.lock().unwrap();
                    s.0 += cases;
                    s.1 += execs;
                    s.2 += STEPS.with(|s| s.get());
                    if s.3.is_empty() {
                        s.3 = states;
                    } else {
                        s.3.extend(states);
                    }
                    drop(s);
                    done.fetch_add(1, Relaxed);
                })
                .expect("thread");
        }
        // Watchdog.
        let mut last = Instant::now();
        while done.load(Relaxed) < lim.threads {
            std::thread::sleep(Duration::from_millis(20));
            if last.elapsed() > Duration::from_millis(500) {
                last = Instant::now();
                let now = t0.elapsed().as_millis() as u64;
                for th in 0..lim.threads {
                    let c = slots.case(th).load(Relaxed);
                    if c != 0
                        && now.saturating_sub(slots.since(th).load(Relaxed))
                            > lim.hang.as_millis() as u64
                        && slots.case(th).load(Relaxed) == c
                    {
                        *hang.lock().unwrap() = Some(c - 1);
                    }
                }
                if let Some(g) = *hang.lock().unwrap() {
                    // The thread can't be ended: report from here.
                    crate::report_hang(p, spaces, g);
                }
            }
        }
    });
    let s = sums.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    failures.sort();
    let covered = next.load(Relaxed).min(total);
    let mut left = covered;
    let per_space = spaces
        .iter()
        .map(|s| {
            let n = left.min(s.size());
            left -= n;
            (s.name.clone(), n)
        })
        .collect();
    Report {
        cases: s.0,
        total,
        execs: s.1,
        states: s.3.len() as u64,
        transitions: s.2,
        failures,
        model_errors: model_errors.into_inner().unwrap(),
        capped: capped.load(Relaxed) && covered < total,
        per_space,
    }
}
