#![allow(warnings)]
//! The broker's statistics counters under every interleaving of threads.
//!
//! The module is compiled from /repo with its atomics and locks replaced by ones that hand control to a
//! scheduler before every operation. `explore` enumerates every schedule.

pub mod shim;

mod broker_info {
    include!(concat!(env!("OUT_DIR"), "/broker_info.rs"));
}

use shim::sched;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Inc,
    Dec,
    Received,
    Sent,
    PubReceived,
    PubSent,
    Look,
}
use Op::*;

fn run(o: Op) {
    match o {
        Inc => broker_info::client_inc(),
        Dec => broker_info::client_dec(),
        Received => broker_info::received_data(5),
        Sent => broker_info::sent_data(7),
        PubReceived => broker_info::received_published(),
        PubSent => broker_info::sent_published(),
        Look => {
            broker_info::get_stats();
        }
    }
}
fn stats() -> [usize; 7] {
    let s = broker_info::get_stats();
    [s.0, s.1, s.2, s.3, s.4, s.5, s.6]
}
fn effect(o: Op) -> [isize; 7] {
    match o {
        Inc => [0, 0, 1, 0, 0, 0, 0],
        Dec => [0, 0, -1, 0, 0, 0, 0],
        Received => [5, 0, 0, 1, 0, 0, 0],
        Sent => [0, 7, 0, 0, 1, 0, 0],
        PubReceived => [0, 0, 0, 0, 0, 1, 0],
        PubSent => [0, 0, 0, 0, 0, 0, 1],
        Look => [0; 7],
    }
}

const NAMES: [&str; 7] = [
    "bytes received",
    "bytes sent",
    "clients connected",
    "packets received",
    "packets sent",
    "PUBLISH packets received",
    "PUBLISH packets sent",
];

#[derive(Default)]
pub struct Report {
    pub programs: u64,
    pub schedules: u64,
    pub switches: u64,
    pub bad: Vec<String>,
    /// All schedules with up to this many preemptions are covered (None: all schedules).
    pub bound: Option<usize>,
    /// Why this says nothing about the code, if so.
    pub void: Option<String>,
}

/// Every schedule of these threads with up to `bound` preemptions. Whether there are more.
fn explore_one(threads: &[Vec<Op>], bound: usize, until: Instant, rep: &mut Report) -> bool {
    let mut more = false;
    let mut prefix: Vec<usize> = vec![];
    loop {
        let base = stats();
        let progs: Vec<Vec<Box<dyn FnOnce() + Send>>> = threads
            .iter()
            .map(|t| t.iter().map(|o| { let o = *o; Box::new(move || run(o)) as Box<dyn FnOnce() + Send> }).collect())
            .collect();
        let (trace, err) = sched::run(progs, &prefix);
        rep.schedules += 1;
        rep.switches += trace.len() as u64;
        if let Some(e) = err {
            rep.void = Some(e);
            return true;
        }
        let now = stats();
        let mut want = [0isize; 7];
        for o in threads.iter().flatten() {
            for (w, e) in want.iter_mut().zip(effect(*o)) {
                *w += e;
            }
        }
        for k in 0..7 {
            let got = now[k].wrapping_sub(base[k]) as isize;
            if got != want[k] {
                let sch: Vec<usize> = trace.iter().map(|x| x.taken).collect();
                rep.bad.push(format!(
                    "statistics under concurrent updates: threads {threads:?}, schedule {sch:?}: {} changes by {got} instead of {}",
                    NAMES[k], want[k]
                ));
            }
        }
        if rep.bad.len() > 5 || Instant::now() > until {
            return true;
        }
        // the next schedule
        let mut i = trace.len();
        let mut taken = trace.iter().filter(|x| x.preempts && x.taken > 0).count();
        loop {
            if i == 0 {
                return more;
            }
            i -= 1;
            let x = trace[i];
            taken -= (x.preempts && x.taken > 0) as usize;
            if x.taken + 1 < x.of {
                if !x.preempts || taken < bound {
                    break;
                }
                more = true;
            }
        }
        prefix = trace[..i].iter().map(|x| x.taken).collect();
        prefix.push(trace[i].taken + 1);
    }
}

impl Report {
    fn to_text(&self) -> String {
        let mut o = format!("{} {} {} {}\n{}\n", self.programs, self.schedules, self.switches, self.bound.map_or(-1, |b| b as i64), self.void.as_deref().unwrap_or(""));
        for b in &self.bad {
            o += &format!("{}\n", b.replace('\n', " "));
        }
        o
    }
    fn add(&mut self, text: &str) -> Option<()> {
        let mut l = text.lines();
        let n: Vec<i64> = l.next()?.split(' ').filter_map(|x| x.parse().ok()).collect();
        self.programs += *n.first()? as u64;
        self.schedules += *n.get(1)? as u64;
        self.switches += *n.get(2)? as u64;
        let b = *n.get(3)?;
        if b >= 0 {
            self.bound = Some(self.bound.unwrap_or(usize::MAX).min(b as usize));
        }
        let v = l.next()?;
        if !v.is_empty() {
            self.void = Some(v.into());
        }
        self.bad.extend(l.map(|x| x.to_string()));
        Some(())
    }
}

const PARTS: usize = 8;

/// Explores in several processes (the statistics are global variables).
pub fn explore(thorough: bool) -> Report {
    let exe = std::env::current_exe().expect("no path of this program");
    let children: Vec<_> = (0..PARTS)
        .map(|k| {
            std::process::Command::new(&exe)
                .args(["atoms", if thorough { "thorough" } else { "quick" }, &k.to_string()])
                .stdout(std::process::Stdio::piped())
                .spawn()
        })
        .collect();
    let mut rep = Report::default();
    for c in children {
        let text = c.and_then(|c| c.wait_with_output()).map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        if rep.add(&text).is_none() {
            rep.void = Some("a part of it ended without an answer".into());
        }
    }
    rep
}

/// One of the parts; prints what it found.
pub fn part(thorough: bool, k: usize) {
    print!("{}", explore_part(thorough, k).to_text());
}

fn explore_part(thorough: bool, k: usize) -> Report {
    let mut rep = Report { bound: Some(0), ..Report::default() };
    let ops = [Inc, Dec, Received, Sent, PubReceived, PubSent, Look];
    for _ in 0..1000 {
        run(Inc);
    }
    let mut progs: Vec<Vec<Vec<Op>>> = vec![];
    for (i, a) in ops.iter().enumerate() {
        for b in &ops[i..] {
            progs.push(vec![vec![*a], vec![*b]]);
            // reading takes seven steps of its own: only next to one update
            if *b == Look {
                continue;
            }
            progs.push(vec![vec![*a, *b], vec![*a, *b]]);
            progs.push(vec![vec![*a, *b], vec![*b, *a]]);
            progs.push(vec![vec![*a], vec![*a], vec![*b]]);
            progs.push(vec![vec![*a], vec![*b], vec![*b]]);
            if thorough {
                for c in &ops[..6] {
                    progs.push(vec![vec![*a], vec![*b], vec![*c]]);
                    progs.push(vec![vec![*a, *b], vec![*c, *a]]);
                    progs.push(vec![vec![*a, *c], vec![*b, *c]]);
                }
            }
        }
    }
    let progs: Vec<_> = progs.into_iter().skip(k).step_by(PARTS).collect();
    rep.programs = progs.len() as u64;
    let until = Instant::now() + Duration::from_secs(if thorough { 300 } else { 60 });
    for bound in [1, 2, 3, usize::MAX] {
        let mut more = false;
        let before = (rep.schedules, rep.switches);
        for p in &progs {
            more |= explore_one(p, bound, until, &mut rep);
            if rep.void.is_some() || rep.bad.len() > 5 {
                return rep;
            }
            // keep the number of clients up, so that no schedule takes it below zero
            if stats()[2] < 500 {
                for _ in 0..500 {
                    run(Inc);
                }
            }
            if Instant::now() > until {
                return rep;
            }
        }
        // each round repeats the ones before
        rep.schedules -= before.0;
        rep.switches -= before.1;
        rep.bound = Some(bound);
        if !more {
            rep.bound = None;
            break;
        }
    }
    rep
}
