//! One controlled execution of the broker, and the enumeration of all of them.

use crate::codec::*;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tokio::sim::{self, NetEvent, Preempt, Step as SStep};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

// ----- scenarios --------------------------------------------------------------------------------

pub type Pred = Arc<dyn Fn(&Obs) -> bool + Send + Sync>;

#[derive(Clone)]
pub enum Step {
    /// A client opens connection `c`.
    Open(usize),
    /// A connection fails before the broker accepts it.
    AcceptFail(io::ErrorKind),
    /// These bytes arrive in one piece.
    Send(usize, Arc<Vec<u8>>),
    /// The same with bytes made when they are needed.
    Make(usize, Arc<dyn Fn() -> Vec<u8> + Send + Sync>),
    /// Wait until this holds.
    Wait(String, Pred),
    /// Wait until the broker has nothing left to do.
    Quiet,
    /// The client closes its sending side.
    Eof(usize),
    /// The client closes its socket: it reads nothing more either.
    Gone(usize),
    /// The connection breaks.
    Reset(usize, io::ErrorKind),
    /// The client accepts this many more bytes.
    Window(usize, Option<usize>),
    Advance(u64),
    CtrlC,
    /// Record the broker's statistics.
    Stats,
    /// Record how much memory the broker holds.
    Heap,
    /// Acknowledge every delivery not acknowledged so far, but not the first n.
    AckAll(usize, usize),
    /// Schedules are explored from here on, or no longer.
    Explore(bool),
    /// Continue with any one of these.
    Branch(Arc<Vec<Vec<Step>>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum K {
    /// Which runnable task runs.
    Pick = 0,
    /// A client acts although the broker is busy.
    Early = 1,
    /// Which client acts when the broker is idle.
    Env = 2,
    Preempt = 3,
    Select = 4,
    Write = 5,
    /// What a client does.
    Op = 6,
}
pub const KINDS: usize = 7;
pub const OFF: u8 = u8::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Fifo,
    Lifo,
}

pub type Oracle = Arc<dyn Fn(&Run, &mut Vec<String>) + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub actors: Vec<Vec<Step>>,
    pub conns: usize,
    /// Deviation budget and the price of each kind of deviation (OFF: not explored).
    pub budget: u32,
    pub cost: [u8; KINDS],
    pub policy: Policy,
    /// Clients act before the broker finishes what it is doing (default order).
    pub eager: bool,
    pub select_default: u32,
    /// Every write is accepted in pieces of this size (0: whole).
    pub write_chunk: usize,
    pub hash_seed: u64,
    pub max_steps: usize,
    /// Steps without any visible progress that count as spinning.
    pub spin: usize,
    pub must_exit: bool,
    /// No time limit is at stake, though the scenario moves the clock.
    pub patient: bool,
    /// Connections that acknowledge deliveries on their own.
    pub autoack: bool,
    pub oracle: Oracle,
    /// Share of the scenario's subtrees per job.
    pub parts: usize,
    pub max_execs: u64,
    /// Schedules are explored only after the first `Explore(true)`.
    pub late: bool,
}

impl Scenario {
    pub fn new(name: impl Into<String>) -> Scenario {
        Scenario {
            name: name.into(),
            actors: vec![],
            conns: 0,
            budget: 0,
            cost: [1, 1, 1, 1, 1, OFF, 0],
            policy: Policy::Fifo,
            eager: false,
            select_default: 0,
            write_chunk: 0,
            hash_seed: 0,
            max_steps: 200_000,
            spin: 3_000,
            must_exit: false,
            patient: false,
            autoack: true,
            oracle: Arc::new(|_, _| {}),
            parts: 1,
            max_execs: 20_000_000,
            late: false,
        }
    }
    pub fn conn(&mut self) -> usize {
        self.conns += 1;
        self.conns - 1
    }
}

// ----- observations -----------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Ev {
    Open(usize),
    Sent(usize, Arc<Vec<u8>>),
    Eof(usize),
    Gone(usize),
    Reset(usize),
    Window(usize, Option<usize>),
    Advance(u64),
    CtrlC,
    /// The broker has nothing left to do.
    Quiet,
    Accepted(usize),
    AcceptFailed,
    Read(usize, usize),
    SawEof(usize),
    Out(usize, S),
    WriteFailed(usize),
    Shutdown(usize),
    Dropped(usize),
    Listening(u16),
    ListenerDropped,
    Panic(String),
    Waited(String),
    Stats([usize; 7]),
    Heap(isize),
}

#[derive(Default, Clone)]
pub struct ConnObs {
    pub opened: bool,
    pub accepted: bool,
    pub got: Vec<S>,
    pub sent: usize,
    pub read: usize,
    pub dropped: bool,
    pub lost: bool,
    pub rest: usize,
    pub out_bytes: usize,
    pub stalled: bool,
}

#[derive(Default, Clone)]
pub struct Obs {
    pub conns: Vec<ConnObs>,
    pub ms: u64,
    pub pos: Vec<usize>,
    pub actors_done: usize,
    pub listener_dropped: bool,
}
impl Obs {
    pub fn count(&self, c: usize, f: impl Fn(&S) -> bool) -> usize {
        self.conns[c].got.iter().filter(|s| f(s)).count()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// All scripts ended and the broker is idle.
    Done,
    /// `main` returned.
    Exited,
    /// The signal ended the process before `main` could handle it.
    Killed,
    /// The broker is idle although these waits are not satisfied.
    Stuck(Vec<String>),
    /// The broker keeps running without any visible progress.
    Spin,
    StepLimit,
    Diverged(String),
}

#[derive(Clone)]
pub struct Run {
    pub log: Vec<(u64, Ev)>,
    pub end: End,
    pub obs: Obs,
    /// (kind, alternatives, taken)
    pub trace: Vec<(K, u16, u16)>,
    pub steps: u64,
    pub panics: Vec<String>,
}

impl Run {
    pub fn render(&self) -> String {
        let mut o = String::new();
        let mut i = 0;
        while i < self.log.len() {
            let (t, e) = &self.log[i];
            let line = match e {
                Ev::Sent(c, b) => {
                    let mut s = String::new();
                    let mut r = &b[..];
                    while let Some(Ok((f, body, n))) = split(r) {
                        match dec_c(f, body) {
                            Ok(C::Publish { payload, topic, qos, pid, dup, .. }) => s += &format!(
                                " PUBLISH q{qos} id{pid}{} {:?} {}",
                                if dup { " dup" } else { "" },
                                topic,
                                Short(&payload)
                            ),
                            Ok(p) => s += &format!(" {p:?}"),
                            Err(e) => s += &format!(" {e:?}[{}]", Short(&r[..n])),
                        }
                        r = &r[n..];
                    }
                    if !r.is_empty() {
                        s += &format!(" bytes[{}]", Short(r));
                    }
                    format!("client -> c{c}:{s}")
                }
                Ev::Out(c, S::Publish { dup, qos, retain, topic, pid, payload }) => format!(
                    "c{c} <- broker: PUBLISH q{qos} id{pid}{}{} {} {}",
                    if *dup { " dup" } else { "" },
                    if *retain { " retain" } else { "" },
                    Short(topic),
                    Short(payload)
                ),
                Ev::Out(c, s) => format!("c{c} <- broker: {s:?}"),
                e => format!("{e:?}"),
            };
            o += &format!("{t:>7} ms  {line}\n");
            i += 1;
        }
        o += &format!("end: {:?}\n", self.end);
        o
    }
}

// ----- controller -------------------------------------------------------------------------------

struct St {
    sc: Arc<Scenario>,
    prefix: Vec<u16>,
    trace: Vec<(K, u16, u16)>,
    diverged: Option<String>,
    log: Vec<(u64, Ev)>,
    obs: Obs,
    dec: Vec<SDec>,
    simid: Vec<Option<usize>>,
    back: Vec<usize>,
    acked: Vec<usize>,
    pos: Vec<usize>,
    scripts: Vec<VecDeque<Step>>,
    autoq: Vec<(usize, Vec<u8>)>,
    /// Per connection, the packet sent in part so far.
    tail: Vec<Vec<u8>>,
    steps: u64,
    since_progress: usize,
    last_task_count: usize,
    grace: u32,
    /// The scenario moves the clock itself.
    timed: bool,
    /// Pauses of the broker without progress.
    pauses: u32,
    end: Option<End>,
    quiet_logged: bool,
    armed: bool,
    states: U64Set,
    conn_hash: Vec<u64>,
    /// A digest of all of `conn_hash`.
    conns_hash: u64,
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static IN_RUN: Cell<bool> = const { Cell::new(false) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}

/// std and rand take their seeds here: every execution sees the same "random" numbers.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let v = RNG
            .try_with(|r| {
                let v = r.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                r.set(v);
                (v >> 33) as u8
            })
            .unwrap_or(7);
        unsafe { *buf.add(i) = v };
    }
    len as isize
}

/// Hash maps are split by the number of processors: make it the same everywhere.
#[no_mangle]
pub extern "C" fn sched_getaffinity(_pid: i32, size: usize, mask: *mut u8) -> i32 {
    for i in 0..size {
        unsafe { *mask.add(i) = if i == 0 { 0x0f } else { 0 } };
    }
    0
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_RUN.try_with(|r| r.get()).unwrap_or(false) {
            let _ = PANICS.try_with(|p| p.borrow_mut().push(format!("{m} at {at}")));
        } else {
            eprintln!("mc: panic: {m} at {at}");
        }
    }));
}

/// Steps of all executions of this process.
pub static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl St {
    fn choose(&mut self, k: K, n: usize) -> usize {
        if n <= 1 || self.sc.cost[k as usize] == OFF || !(self.armed || k == K::Op) {
            return 0;
        }
        let i = self.trace.len();
        let v = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if v >= n {
            self.diverged = Some(format!("choice {i}: {v} of {n} ({k:?})"));
            return 0;
        }
        self.trace.push((k, n as u16, v as u16));
        v
    }
    fn log(&mut self, e: Ev) {
        let ms = self.obs.ms;
        self.log.push((ms, e));
    }
    fn progress(&mut self) {
        self.since_progress = 0;
        self.quiet_logged = false;
        self.grace = 0;
        self.pauses = 0;
    }
    fn mix(&mut self, c: usize, v: u64) {
        let mut h = DefaultHasher::new();
        (self.conn_hash[c], v).hash(&mut h);
        let new = h.finish();
        let salt = |x: u64| (x ^ c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        self.conns_hash = self.conns_hash.wrapping_sub(salt(self.conn_hash[c])).wrapping_add(salt(new));
        self.conn_hash[c] = new;
    }
    fn pump(&mut self) {
        for p in PANICS.with(|p| std::mem::take(&mut *p.borrow_mut())) {
            self.log(Ev::Panic(p));
        }
        let evs = sim::take_events();
        for e in evs {
            match e {
                NetEvent::Accepted(i) => {
                    let c = self.back[i];
                    self.obs.conns[c].accepted = true;
                    self.progress();
                    self.log(Ev::Accepted(c));
                }
                NetEvent::AcceptFailed => {
                    self.progress();
                    self.log(Ev::AcceptFailed);
                }
                NetEvent::Read(i, n) => {
                    let c = self.back[i];
                    self.obs.conns[c].read += n;
                    self.progress();
                    self.mix(c, n as u64);
                    self.log(Ev::Read(c, n));
                }
                NetEvent::SawEof(i) => {
                    let c = self.back[i];
                    self.log(Ev::SawEof(c));
                }
                NetEvent::Out(i, b) => {
                    let c = self.back[i];
                    self.progress();
                    self.obs.conns[c].out_bytes += b.len();
                    let mut v = vec![];
                    self.dec[c].push(&b, &mut v);
                    self.obs.conns[c].rest = self.dec[c].rest();
                    for s in v {
                        let mut h = DefaultHasher::new();
                        s.hash(&mut h);
                        self.mix(c, h.finish());
                        if self.sc.autoack && !self.obs.conns[c].lost {
                            match &s {
                                S::Publish { qos: 1, pid, .. } => self.autoq.push((c, C::PubAck(*pid).enc())),
                                S::Publish { qos: 2, pid, .. } => self.autoq.push((c, C::PubRec(*pid).enc())),
                                // a PUBREL that answers our PUBREC
                                S::PubRel(pid) => self.autoq.push((c, C::PubComp(*pid).enc())),
                                _ => {}
                            }
                        }
                        self.obs.conns[c].got.push(s.clone());
                        self.log(Ev::Out(c, s));
                    }
                }
                NetEvent::WriteFailed(i) => {
                    let c = self.back[i];
                    self.log(Ev::WriteFailed(c));
                }
                NetEvent::Shutdown(i) => {
                    let c = self.back[i];
                    self.log(Ev::Shutdown(c));
                }
                NetEvent::Dropped(i) => {
                    let c = self.back[i];
                    self.obs.conns[c].dropped = true;
                    self.progress();
                    self.mix(c, 0xdead);
                    self.log(Ev::Dropped(c));
                }
                NetEvent::Listening(a) => {
                    self.log(Ev::Listening(a.port()));
                }
                NetEvent::ListenerDropped => {
                    self.obs.listener_dropped = true;
                    self.progress();
                    self.log(Ev::ListenerDropped);
                }
            }
        }
    }

    fn enabled(&self, a: usize) -> bool {
        !matches!(
            self.scripts[a].front(),
            None | Some(Step::Wait(..)) | Some(Step::Quiet) | Some(Step::Stats) | Some(Step::Heap) | Some(Step::Explore(_))
        )
    }

    /// Passes the waits that are satisfied.
    fn pass_waits(&mut self, quiet: bool) {
        loop {
            let mut any = false;
            for a in 0..self.scripts.len() {
                while let Some(s) = self.scripts[a].front() {
                    match s {
                        Step::Wait(l, p) if p(&self.obs) => {
                            let l = l.clone();
                            self.log(Ev::Waited(l))
                        }
                        Step::Quiet if quiet => {}
                        Step::Stats if quiet => {
                            #[cfg(feature = "stats")]
                            {
                                let s = sut::stats();
                                self.log(Ev::Stats([s.0, s.1, s.2, s.3, s.4, s.5, s.6]));
                            }
                        }
                        Step::Explore(on) => self.armed = *on,
                        Step::Heap if quiet => self.log(Ev::Heap(crate::heap::held())),
                        Step::Branch(b) => {
                            let b = b.clone();
                            let v = self.choose(K::Op, b.len());
                            // the branch itself is replaced; `step_done` removes the marker
                            for s in b[v].iter().rev() {
                                self.scripts[a].insert(1, s.clone());
                            }
                        }
                        _ => break,
                    }
                    any = true;
                    self.step_done(a);
                }
            }
            if !any {
                break;
            }
        }
    }
    fn send(&mut self, c: usize, b: Arc<Vec<u8>>) {
        self.log(Ev::Sent(c, b.clone()));
        self.obs.conns[c].sent += b.len();
        sim::deliver(self.simid[c].expect("not open"), &b);
        let t = &mut self.tail[c];
        t.extend_from_slice(&b);
        let mut at = 0;
        while let Some(Ok((_, _, n))) = split(&t[at..]) {
            at += n;
        }
        t.drain(..at);
    }
    fn step_done(&mut self, a: usize) {
        self.scripts[a].pop_front();
        self.pos[a] += 1;
        self.obs.pos[a] = self.pos[a];
        if self.scripts[a].is_empty() {
            self.obs.actors_done += 1;
        }
    }

    /// Performs actor `a`'s next step.
    fn act(&mut self, a: usize) -> Option<SStep> {
        let step = self.scripts[a][0].clone();
        self.step_done(a);
        self.progress();
        match step {
            Step::Open(c) => {
                let id = sim::open();
                self.simid[c] = Some(id);
                if self.back.len() <= id {
                    self.back.resize(id + 1, 0);
                }
                self.back[id] = c;
                self.obs.conns[c].opened = true;
                self.log(Ev::Open(c));
            }
            Step::AcceptFail(kind) => sim::fail_accept(kind),
            Step::Send(c, b) => {
                self.send(c, b);
            }
            Step::Make(c, f) => {
                self.send(c, Arc::new(f()));
            }
            Step::AckAll(c, keep) => {
                let mut b = vec![];
                let from = self.acked[c].max(keep);
                let mut seen = 0;
                for p in &self.obs.conns[c].got {
                    if let S::Publish { qos, pid, .. } = p {
                        if *qos > 0 {
                            seen += 1;
                            if seen > from {
                                match qos {
                                    1 => b.extend(C::PubAck(*pid).enc()),
                                    _ => {
                                        b.extend(C::PubRec(*pid).enc());
                                        b.extend(C::PubComp(*pid).enc());
                                    }
                                }
                            }
                        }
                    }
                }
                self.acked[c] = seen;
                let b = Arc::new(b);
                self.send(c, b);
            }
            Step::Wait(..) | Step::Quiet | Step::Stats | Step::Heap | Step::Explore(_) | Step::Branch(_) => unreachable!(),
            Step::Eof(c) => {
                self.obs.conns[c].lost = true;
                self.log(Ev::Eof(c));
                sim::close(self.simid[c].expect("not open"), false);
            }
            Step::Gone(c) => {
                self.obs.conns[c].lost = true;
                self.log(Ev::Gone(c));
                sim::close(self.simid[c].expect("not open"), true);
            }
            Step::Reset(c, k) => {
                self.obs.conns[c].lost = true;
                self.log(Ev::Reset(c));
                sim::reset(self.simid[c].expect("not open"), k);
            }
            Step::Window(c, w) => {
                self.obs.conns[c].stalled = w.is_some();
                self.log(Ev::Window(c, w));
                sim::set_window(self.simid[c].expect("not open"), w);
            }
            Step::Advance(ms) => {
                self.obs.ms += ms;
                self.log(Ev::Advance(ms));
                return Some(SStep::Advance(Duration::from_millis(ms)));
            }
            Step::CtrlC => {
                self.log(Ev::CtrlC);
                if !sim::interrupt_is_handled() {
                    // the default action of the signal
                    self.end = Some(End::Killed);
                    return Some(SStep::Stop);
                }
                sim::interrupt();
            }
        }
        Some(SStep::Again)
    }

    fn next(&mut self, root: bool, tasks: usize, sunk: usize) -> SStep {
        self.pump();
        if self.end.is_some() || self.diverged.is_some() {
            return SStep::Stop;
        }
        self.steps += 1;
        STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.since_progress += 1;
        if self.since_progress > self.sc.spin {
            self.end = Some(End::Spin);
            return SStep::Stop;
        }
        if self.steps as usize > self.sc.max_steps {
            self.end = Some(End::StepLimit);
            return SStep::Stop;
        }
        {
            let mut h = DefaultHasher::new();
            (self.conns_hash, &self.pos, root, tasks, sunk, self.obs.ms).hash(&mut h);
            self.states.insert(h.finish());
        }
        let runnable = root as usize + tasks;
        self.last_task_count = runnable;
        // a broker that goes on by itself in a moment is not done yet
        let pause = if runnable + sunk == 0 && !self.timed && self.pauses < 40 { sim::due().filter(|d| *d <= 1000) } else { None };
        let quiet = runnable == 0 && sunk == 0 && pause.is_none();
        if quiet && !self.quiet_logged {
            self.quiet_logged = true;
            self.log(Ev::Quiet);
        }
        if runnable == 0 {
            // never in the middle of another packet
            if let Some(k) = self.autoq.iter().position(|(c, _)| self.tail[*c].is_empty()) {
                let (c, b) = self.autoq.remove(k);
                if !self.obs.conns[c].lost {
                    self.send(c, Arc::new(b));
                    self.progress();
                }
                return SStep::Again;
            }
        }
        self.pass_waits(quiet);
        let env: Vec<usize> = (0..self.sc.actors.len()).filter(|&a| self.enabled(a)).collect();
        if runnable > 0 {
            let eager = self.sc.eager && !env.is_empty();
            let early = if self.sc.cost[K::Early as usize] == OFF && !eager { 0 } else { env.len() };
            let picks = if self.sc.cost[K::Pick as usize] == OFF { 1 } else { runnable };
            // order of options: the default first
            let n = picks + early;
            // one decision; its kind decides the price
            let k = if picks > 1 { K::Pick } else { K::Early };
            let v = if n > 1 { self.choose(k, n) } else { 0 };
            let (is_env, i) = if eager {
                if v < early { (true, v) } else { (false, v - early) }
            } else if v < picks {
                (false, v)
            } else {
                (true, v - picks)
            };
            if is_env {
                return self.act(env[i]).unwrap();
            }
            let order = match self.sc.policy {
                Policy::Fifo => i,
                Policy::Lifo => runnable - 1 - i,
            };
            return if root {
                if order == 0 {
                    SStep::Root
                } else {
                    SStep::Task(order - 1)
                }
            } else {
                SStep::Task(order)
            };
        }
        if sunk > 0 {
            let n = env.len() + sunk;
            let v = self.choose(if env.is_empty() { K::Pick } else { K::Early }, n);
            return if v < env.len() { self.act(env[v]).unwrap() } else { SStep::Sunk(v - env.len()) };
        }
        if !env.is_empty() {
            let v = self.choose(K::Env, env.len());
            return self.act(env[v]).unwrap();
        }
        if let Some(ms) = pause {
            let ms = ms.max(1);
            self.pauses += 1;
            self.obs.ms += ms;
            return SStep::Advance(Duration::from_millis(ms));
        }
        // nothing left to do
        let waiting: Vec<String> = (0..self.sc.actors.len())
            .filter_map(|a| match self.scripts[a].front() {
                Some(Step::Wait(l, _)) => Some(l.clone()),
                None => None,
                _ => unreachable!(),
            })
            .collect();
        if waiting.is_empty() && !self.sc.must_exit {
            self.end = Some(End::Done);
            return SStep::Stop;
        }
        if self.grace < 20 {
            self.grace += 1;
            self.obs.ms += 50;
            return SStep::Advance(Duration::from_millis(50));
        }
        self.end = Some(End::Stuck(if waiting.is_empty() { vec!["main to return".into()] } else { waiting }));
        SStep::Stop
    }
}

struct Ctl(Rc<RefCell<St>>);
/// Runs harness code in the middle of the broker's.
fn ours<R>(f: impl FnOnce() -> R) -> R {
    let was = crate::heap::broker(false);
    let r = f();
    crate::heap::broker(was);
    r
}
impl sim::Controller for Ctl {
    fn next(&mut self, root: bool, tasks: usize, sunk: usize) -> SStep {
        ours(|| self.0.borrow_mut().next(root, tasks, sunk))
    }
    fn preempt(&mut self) -> Preempt {
        ours(|| self.do_preempt())
    }
    fn select(&mut self, n: u32) -> u32 {
        ours(|| self.do_select(n))
    }
    fn write_size(&mut self, conn: usize, n: usize) -> usize {
        ours(|| self.do_write_size(conn, n))
    }
}
impl Ctl {
    fn do_preempt(&mut self) -> Preempt {
        let mut s = self.0.borrow_mut();
        if s.end.is_some() || s.sc.cost[K::Preempt as usize] == OFF {
            return Preempt::No;
        }
        match s.choose(K::Preempt, 3) {
            0 => Preempt::No,
            1 => Preempt::Sink,
            _ => Preempt::Yield,
        }
    }
    fn do_select(&mut self, n: u32) -> u32 {
        let mut s = self.0.borrow_mut();
        let d = s.sc.select_default % n;
        if s.end.is_some() {
            return d;
        }
        let v = s.choose(K::Select, n as usize) as u32;
        (d + v) % n
    }
    fn do_write_size(&mut self, _conn: usize, n: usize) -> usize {
        let mut s = self.0.borrow_mut();
        let base = if s.sc.write_chunk > 0 { n.min(s.sc.write_chunk) } else { n };
        if n <= 1 || s.end.is_some() {
            return base;
        }
        match s.choose(K::Write, if n > 2 { 3 } else { 2 }) {
            0 => base,
            1 => 1,
            _ => n - 1,
        }
    }
}

fn moves_clock(steps: &[Step]) -> bool {
    steps.iter().any(|s| match s {
        Step::Advance(_) => true,
        Step::Branch(b) => b.iter().any(|s| moves_clock(s)),
        _ => false,
    })
}

/// Runs one execution in this thread (which must be fresh: it gives the random seeds).
fn run_here(sc: Arc<Scenario>, prefix: Vec<u16>) -> (Run, U64Set) {
    RNG.with(|r| r.set(sc.hash_seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567));
    let n = sc.conns;
    let na = sc.actors.len();
    let st = Rc::new(RefCell::new(St {
        prefix,
        trace: vec![],
        diverged: None,
        log: vec![],
        obs: Obs { conns: vec![ConnObs::default(); n], pos: vec![0; na], ..Obs::default() },
        dec: vec![SDec::default(); n],
        simid: vec![None; n],
        back: vec![],
        acked: vec![0; n],
        pos: vec![0; na],
        scripts: sc.actors.iter().map(|a| a.iter().cloned().collect()).collect(),
        autoq: vec![],
        tail: vec![vec![]; sc.conns],
        steps: 0,
        since_progress: 0,
        last_task_count: 0,
        grace: 0,
        timed: !sc.patient && sc.actors.iter().any(|a| moves_clock(a)),
        pauses: 0,
        end: None,
        quiet_logged: false,
        armed: !sc.late,
        states: U64Set::default(),
        conn_hash: vec![0; n],
        conns_hash: 0,
        sc,
    }));
    sim::install(Box::new(Ctl(st.clone())));
    crate::statics::reset();
    IN_RUN.with(|r| r.set(true));
    crate::heap::reset();
    crate::heap::broker(true);
    let res = std::panic::catch_unwind(sut::run_main);
    crate::heap::broker(false);
    IN_RUN.with(|r| r.set(false));
    {
        let mut s = st.borrow_mut();
        if s.end.is_none() {
            s.pump();
        }
    }
    sim::uninstall();
    let mut s = st.borrow_mut();
    match res {
        Ok(_) => {
            if s.end.is_none() {
                s.end = Some(End::Exited)
            }
        }
        Err(e) => {
            if e.downcast_ref::<sim::Stopped>().is_none() {
                // main itself panicked
                s.end = Some(End::Exited);
            }
        }
    }
    if let Some(d) = s.diverged.take() {
        s.end = Some(End::Diverged(d));
    } else if s.trace.len() < s.prefix.len() {
        let m = format!("only {} of {} choices came up", s.trace.len(), s.prefix.len());
        s.end = Some(End::Diverged(m));
    }
    let states = std::mem::take(&mut s.states);
    let run = Run {
        panics: s
            .log
            .iter()
            .filter_map(|(_, e)| if let Ev::Panic(p) = e { Some(p.clone()) } else { None })
            .collect(),
        log: std::mem::take(&mut s.log),
        end: s.end.clone().unwrap(),
        obs: std::mem::take(&mut s.obs),
        trace: std::mem::take(&mut s.trace),
        steps: s.steps,
    };
    (run, states)
}

pub fn execute(sc: &Arc<Scenario>, prefix: &[u16]) -> (Run, U64Set) {
    let sc = sc.clone();
    let prefix = prefix.to_vec();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .name("run".into())
        .spawn(move || run_here(sc, prefix))
        .unwrap()
        .join()
        .expect("harness panicked")
}

// ----- enumeration ------------------------------------------------------------------------------

#[derive(Default)]
pub struct Tally {
    pub execs: u64,
    pub steps: u64,
    pub choices: u64,
    pub states: U64Set,
    pub truncated: bool,
    /// (prefix, messages)
    pub bad: Vec<(Vec<u16>, Vec<String>)>,
    pub sample: Option<String>,
}

/// All verdicts about one execution.
pub fn judge(sc: &Scenario, run: &Run) -> Vec<String> {
    let mut v = vec![];
    for p in &run.panics {
        v.push(format!("the broker panics: {p}"));
    }
    match &run.end {
        End::Done => {}
        End::Exited | End::Killed if sc.must_exit => {}
        End::Killed => v.push("the broker does not handle the signal".into()),
        End::Exited => v.push("the broker's main returned".into()),
        End::Stuck(w) => v.push(format!("stuck waiting for: {}", w.join("; "))),
        End::Spin => v.push("the broker keeps running without progress (busy loop)".into()),
        End::StepLimit => v.push("the broker does not become idle within the step limit".into()),
        End::Diverged(d) => v.push(format!("HARNESS: replay diverged: {d}")),
    }
    (sc.oracle)(run, &mut v);
    v
}

/// Enumerates every execution of `sc` within its budget whose first deviation has index = part mod parts.
pub fn explore(sc: &Arc<Scenario>, part: usize, parts: usize, journal: &mut dyn FnMut(&[u16]), t: &mut Tally) {
    // stack of (prefix, cost so far)
    let mut stack: Vec<(Vec<u16>, u32)> = vec![(vec![], 0)];
    let mut first = true;
    let mut count = 0u64;
    while let Some((prefix, cost)) = stack.pop() {
        journal(&prefix);
        let (run, states) = execute(sc, &prefix);
        let own = !first || part == 0;
        if own {
            t.execs += 1;
            t.steps += run.steps;
            t.choices += run.trace.len() as u64;
            t.states.extend(states.iter().map(|s| s ^ hash_str(&sc.name)));
            let v = judge(sc, &run);
            if !v.is_empty() {
                t.bad.push((run.trace.iter().map(|x| x.2).collect(), v));
                if t.bad.len() > 200 {
                    t.truncated = true;
                    return;
                }
            }
        }
        count += 1;
        if count > sc.max_execs {
            t.truncated = true;
            return;
        }
        if first && part == 0 && t.sample.is_none() {
            t.sample = Some(format!("{}: {} steps, {} decisions; log:\n{}", sc.name, run.steps, run.trace.len(), run.render()));
        }
        if matches!(run.end, End::Diverged(_)) {
            first = false;
            continue;
        }
        let mut idx = 0usize;
        for i in (prefix.len()..run.trace.len()).rev() {
            let (k, n, _) = run.trace[i];
            let c = sc.cost[k as usize] as u32;
            if cost + c > sc.budget {
                continue;
            }
            for a in (1..n).rev() {
                idx += 1;
                if first && idx % parts != part {
                    continue;
                }
                let mut p: Vec<u16> = run.trace[..i].iter().map(|x| x.2).collect();
                p.push(a);
                stack.push((p, cost + c));
            }
        }
        first = false;
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
