//! Building blocks of scenarios.

use crate::codec::*;
use crate::engine::*;
use crate::monitor::{monitor, Opt};
use std::io;
use std::sync::Arc;

pub fn open(c: usize) -> Step {
    Step::Open(c)
}
pub fn send(c: usize, p: C) -> Step {
    Step::Send(c, Arc::new(p.enc()))
}
pub fn sends(c: usize, ps: &[C]) -> Step {
    Step::Send(c, Arc::new(ps.iter().flat_map(|p| p.enc()).collect()))
}
pub fn raw(c: usize, b: impl Into<Vec<u8>>) -> Step {
    Step::Send(c, Arc::new(b.into()))
}
pub fn eof(c: usize) -> Step {
    Step::Eof(c)
}
pub fn gone(c: usize) -> Step {
    Step::Gone(c)
}
pub fn reset(c: usize) -> Step {
    Step::Reset(c, io::ErrorKind::ConnectionReset)
}
pub fn window(c: usize, w: Option<usize>) -> Step {
    Step::Window(c, w)
}
pub fn wait(l: impl Into<String>, f: impl Fn(&Obs) -> bool + Send + Sync + 'static) -> Step {
    Step::Wait(l.into(), Arc::new(f))
}
/// Wait until `c` got `s` `n` times.
pub fn await_n(c: usize, s: S, n: usize) -> Step {
    let l = format!("c{c} to get {s:?}{}", if n > 1 { format!(" x{n}") } else { String::new() });
    wait(l, move |o| o.count(c, |x| *x == s) >= n)
}
pub fn await_connack(c: usize) -> Step {
    wait(format!("c{c} to get CONNACK"), move |o| o.count(c, |x| matches!(x, S::ConnAck(_, 0))) >= 1)
}
pub fn await_closed(c: usize) -> Step {
    wait(format!("c{c} to be closed"), move |o| o.conns[c].dropped)
}
pub fn await_pubs(c: usize, n: usize) -> Step {
    wait(format!("c{c} to get {n} messages"), move |o| o.count(c, |x| matches!(x, S::Publish { .. })) >= n)
}
pub fn await_any(c: usize, n: usize) -> Step {
    wait(format!("c{c} to get {n} packets"), move |o| o.conns[c].got.len() >= n)
}
/// Wait until actor `a` did its first `n` steps.
pub fn after(a: usize, n: usize) -> Step {
    wait(format!("client {a} to get to step {n}"), move |o| o.pos[a] >= n)
}
pub fn after_actors(n: usize) -> Step {
    wait(format!("{n} clients to finish"), move |o| o.actors_done >= n)
}

pub fn branch(v: Vec<Vec<Step>>) -> Step {
    Step::Branch(Arc::new(v))
}

pub fn conn(id: &str) -> C {
    C::Connect(connect(id))
}
pub fn pconn(id: &str) -> C {
    C::Connect(connect(id).persistent())
}
pub fn publ(topic: &str, qos: u8, pid: u16, payload: &str) -> C {
    C::Publish {
        dup: false,
        qos,
        retain: false,
        topic: topic.into(),
        pid,
        payload: payload.as_bytes().to_vec(),
    }
}
pub fn pub0(topic: &str, payload: &str) -> C {
    publ(topic, 0, 0, payload)
}
pub fn sub(pid: u16, fs: &[(&str, u8)]) -> C {
    C::Subscribe(pid, fs.iter().map(|(f, q)| (f.to_string(), *q)).collect())
}
pub fn unsub(pid: u16, fs: &[&str]) -> C {
    C::Unsubscribe(pid, fs.iter().map(|f| f.to_string()).collect())
}
pub fn suback(pid: u16, qs: &[u8]) -> S {
    S::SubAck(pid, qs.to_vec())
}

/// Open, CONNECT, wait for CONNACK.
pub fn join(c: usize, id: &str) -> Vec<Step> {
    vec![open(c), send(c, conn(id)), await_connack(c)]
}
pub fn pjoin(c: usize, id: &str) -> Vec<Step> {
    vec![open(c), send(c, pconn(id)), await_connack(c)]
}
/// SUBSCRIBE, wait for SUBACK (whatever it says).
pub fn subd(c: usize, pid: u16, fs: &[(&str, u8)]) -> Vec<Step> {
    vec![
        send(c, sub(pid, fs)),
        wait(format!("c{c} to get SUBACK {pid}"), move |o| {
            o.count(c, |x| matches!(x, S::SubAck(p, _) if *p == pid)) >= 1
        }),
    ]
}
pub fn unsubd(c: usize, pid: u16, fs: &[&str]) -> Vec<Step> {
    vec![send(c, unsub(pid, fs)), await_n(c, S::UnsubAck(pid), 1)]
}

#[macro_export]
macro_rules! script {
    ($($e:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut v: Vec<$crate::engine::Step> = Vec::new();
        $( $crate::scen::Push::push_to($e, &mut v); )*
        v
    }};
}
pub trait Push {
    fn push_to(self, v: &mut Vec<Step>);
}
impl Push for Step {
    fn push_to(self, v: &mut Vec<Step>) {
        v.push(self)
    }
}
impl Push for Vec<Step> {
    fn push_to(self, v: &mut Vec<Step>) {
        v.extend(self)
    }
}

pub fn standard(opt: Opt) -> Oracle {
    Arc::new(move |r, v| monitor(r, opt, v))
}

impl Scenario {
    pub fn actor(&mut self, v: Vec<Step>) -> usize {
        self.actors.push(v);
        self.actors.len() - 1
    }
    /// Adds a last client that checks that the broker still serves: subscribe, publish, receive.
    pub fn probe(&mut self) {
        let c = self.conn();
        let n = self.actors.len();
        let v = script![
            after_actors(n),
            Step::Quiet,
            join(c, "probe"),
            subd(c, 1, &[("probe/t", 1)]),
            send(c, publ("probe/t", 1, 2, "probe")),
            await_n(c, S::PubAck(2), 1),
            await_pubs(c, 1),
            Step::Quiet,
        ];
        self.actor(v);
    }
    /// `setup` runs first, in one schedule; then all schedules of `actors` are explored; then comes `end`, in one schedule.
    pub fn late(&mut self, setup: Vec<Step>, actors: Vec<Vec<Step>>, end: Vec<Step>) {
        self.late = true;
        let n = actors.len();
        self.actor(script![setup, Step::Quiet, Step::Explore(true)]);
        for a in actors {
            self.actor(script![after_actors(1), a]);
        }
        self.actor(script![after_actors(n + 1), Step::Quiet, Step::Explore(false), end]);
    }
    pub fn std(mut self) -> Scenario {
        self.oracle = standard(Opt::default());
        self
    }
}
