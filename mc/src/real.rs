//! Replays executions against the real binary, over loopback with the real tokio, and compares what
//! every client gets. This says nothing about the broker: it validates the simulated environment.

use crate::codec::*;
use crate::engine::*;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Broker(Child);
impl Drop for Broker {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

#[derive(Default)]
struct Client {
    s: Option<TcpStream>,
    dec: SDec,
    got: Vec<S>,
    closed: bool,
    /// this side closed or broke it
    lost: bool,
}
impl Client {
    fn poll(&mut self) -> bool {
        let Some(s) = &mut self.s else { return false };
        if self.closed {
            return false;
        }
        let mut buf = [0u8; 65536];
        let mut any = false;
        loop {
            match s.read(&mut buf) {
                Ok(0) => {
                    self.closed = true;
                    return true;
                }
                Ok(n) => {
                    self.dec.push(&buf[..n], &mut self.got);
                    any = true;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return any,
                Err(_) => {
                    self.closed = true;
                    return true;
                }
            }
        }
    }
}

fn write_all(s: &mut TcpStream, mut b: &[u8]) {
    let until = Instant::now() + Duration::from_secs(5);
    while !b.is_empty() && Instant::now() < until {
        match s.write(b) {
            Ok(n) => b = &b[n..],
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(50)),
            // the broker has closed it
            Err(_) => return,
        }
    }
}

/// Can this execution be replayed?
fn suitable(run: &Run) -> bool {
    matches!(run.end, End::Done)
        && run.log.len() < 4000
        && run.log.iter().all(|(_, e)| {
            !matches!(e, Ev::Window(_, Some(_)) | Ev::Advance(_) | Ev::CtrlC | Ev::AcceptFailed | Ev::Stats(_) | Ev::Heap(_))
        })
}

fn once(bin: &str, n: usize, run: &Run) -> Result<(), String> {
    let mut broker = Broker(
        Command::new(bin).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?,
    );
    let connect = || -> Result<TcpStream, String> {
        let until = Instant::now() + Duration::from_secs(5);
        loop {
            match TcpStream::connect("127.0.0.1:1883") {
                Ok(s) => {
                    s.set_nodelay(true).unwrap();
                    s.set_nonblocking(true).unwrap();
                    return Ok(s);
                }
                Err(e) if Instant::now() > until => return Err(format!("cannot connect: {e}")),
                Err(_) => std::thread::sleep(Duration::from_micros(300)),
            }
        }
    };
    let mut cs: Vec<Client> = (0..n).map(|_| Client::default()).collect();
    // what the simulation has sent so far
    let mut want: Vec<(usize, bool)> = vec![(0, false); n];
    let mut i = 0;
    let mut first = true;
    while i < run.log.len() {
        match &run.log[i].1 {
            Ev::Open(c) => {
                if first {
                    // the broker is starting: this connection only finds out when it is up
                    drop(connect()?);
                    first = false;
                }
                cs[*c].s = Some(connect()?)
            }
            Ev::Sent(c, b) => {
                if let Some(s) = &mut cs[*c].s {
                    write_all(s, b)
                }
            }
            Ev::Eof(c) => {
                cs[*c].lost = true;
                if let Some(s) = &cs[*c].s {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                }
            }
            Ev::Gone(c) => {
                cs[*c].lost = true;
                cs[*c].s = None;
            }
            Ev::Reset(c) => {
                cs[*c].lost = true;
                if let Some(s) = cs[*c].s.take() {
                    use std::os::fd::AsRawFd;
                    extern "C" {
                        fn setsockopt(fd: i32, level: i32, name: i32, v: *const i32, len: u32) -> i32;
                    }
                    // SO_LINGER of 0 s: closing it sends a reset
                    let v = [1, 0];
                    unsafe { setsockopt(s.as_raw_fd(), 1, 13, v.as_ptr(), 8) };
                }
            }
            Ev::Out(c, _) => want[*c].0 += 1,
            Ev::Dropped(c) => want[*c].1 = true,
            _ => {}
        }
        i += 1;
        let acts = |e: &Ev| matches!(e, Ev::Open(_) | Ev::Sent(..) | Ev::Eof(_) | Ev::Gone(_) | Ev::Reset(_));
        if i == run.log.len() || acts(&run.log[i].1) {
            // until the broker has caught up with the simulation; and some more, for what should not come
            let until = Instant::now() + Duration::from_secs(3);
            let least = Instant::now() + Duration::from_micros(if i == run.log.len() { 5000 } else { 1500 });
            loop {
                for c in &mut cs {
                    c.poll();
                }
                let ok = cs.iter().zip(&want).all(|(c, w)| c.lost && c.s.is_none() || c.got.len() >= w.0 && (c.closed || !w.1));
                if ok && Instant::now() > least || Instant::now() > until {
                    break;
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
    }
    if let Ok(Some(st)) = broker.0.try_wait() {
        return Err(format!("the broker ended: {st}"));
    }
    drop(broker);
    for c in 0..n {
        if cs[c].lost && cs[c].s.is_none() {
            continue;
        }
        let sim = &run.obs.conns[c];
        let part = |v: &[S], p: bool| v.iter().filter(|s| matches!(s, S::Publish { .. }) == p).cloned().collect::<Vec<_>>();
        for p in [true, false] {
            let (a, b) = (part(&sim.got, p), part(&cs[c].got, p));
            if a != b {
                return Err(format!("c{c}: simulated {a:?}, real {b:?}"));
            }
        }
        if cs[c].s.is_some() && sim.dropped != cs[c].closed {
            return Err(format!("c{c}: simulated closed={}, real closed={}", sim.dropped, cs[c].closed));
        }
    }
    Ok(())
}

pub fn main(bin: &str, scenarios: Vec<Scenario>, most: usize) -> i32 {
    let (mut done, mut skipped, mut bad, mut execs) = (0, 0, 0, 0);
    for mut sc in scenarios {
        if sc.conns > 200 || sc.eager {
            skipped += 1;
            continue;
        }
        // clients act when the broker is idle; all of their alternatives, one schedule
        sc.late = false;
        sc.budget = 0;
        for k in 0..KINDS {
            if k != K::Op as usize {
                sc.cost[k] = OFF;
            }
        }
        sc.cost[K::Op as usize] = 0;
        let sc = Arc::new(sc);
        let mut stack = vec![vec![]];
        let mut n = 0;
        let mut some = false;
        while let Some(p) = stack.pop() {
            let (run, _) = execute(&sc, &p);
            for i in (p.len()..run.trace.len()).rev() {
                for a in (1..run.trace[i].1).rev() {
                    let mut q: Vec<u16> = run.trace[..i].iter().map(|x| x.2).collect();
                    q.push(a);
                    stack.push(q);
                }
            }
            if !suitable(&run) {
                break;
            }
            some = true;
            execs += 1;
            let mut r = once(bin, sc.conns, &run);
            for _ in 0..2 {
                if r.is_err() {
                    r = once(bin, sc.conns, &run);
                }
            }
            if let Err(e) = r {
                bad += 1;
                println!("DIFFERENCE in {} {:?}: {}", sc.name, p, e.chars().take(600).collect::<String>());
            }
            n += 1;
            if n >= most {
                break;
            }
        }
        if some {
            done += 1
        } else {
            skipped += 1
        }
    }
    println!("{done} scenarios ({skipped} do not apply), {execs} executions replayed, {bad} differences");
    (bad > 0) as i32
}
