//! Memory: C21.

use super::life::accept_failures;
use crate::codec::*;
use crate::engine::*;
use crate::scen::*;
use crate::script;
use crate::Tier;
use std::sync::Arc;

fn readings(r: &Run) -> Vec<isize> {
    r.log.iter().filter_map(|e| if let Ev::Heap(n) = e.1 { Some(n) } else { None }).collect()
}

/// Between the two readings, `cycles` repetitions took place: nothing may stay behind.
fn flat(cycles: usize, per_cycle: usize) -> Oracle {
    Arc::new(move |r, bad| {
        let h = readings(r);
        if r.end != End::Done {
            return;
        }
        if h.len() != 2 {
            bad.push(format!("HARNESS: {} readings of the memory in use", h.len()));
            return;
        }
        let grown = h[1] - h[0];
        if grown > 1024 + (cycles * per_cycle) as isize {
            bad.push(format!("memory in use grows by {grown} bytes in {cycles} repetitions (from {} to {})", h[0], h[1]));
        }
    })
}

/// Every reading after the first is at most that much more than the first.
fn at_most(limits: Vec<usize>) -> Oracle {
    Arc::new(move |r, bad| {
        let h = readings(r);
        if r.end != End::Done {
            return;
        }
        for (k, l) in limits.iter().enumerate() {
            match h.get(k + 1) {
                Some(n) if n - h[0] <= *l as isize => {}
                Some(n) => bad.push(format!("the broker holds {} bytes more than at the beginning; {l} would do", n - h[0])),
                None => bad.push("HARNESS: no reading".into()),
            }
        }
    })
}

fn seqs<T: Clone>(ops: &[T], depth: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for c in &cur {
            for o in ops {
                let mut x = c.clone();
                x.push(o.clone());
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}

type Gen = fn(usize, usize) -> Vec<Step>;

pub fn c21(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    // A client comes, does something, and goes; with other names every time.
    let ops: Vec<(&str, Gen)> = vec![
        ("sub", |c, k| subd(c, 1, &[(&format!("f{k}"), 1)])),
        ("sub deep", |c, k| subd(c, 2, &[(&format!("p/{k}/x/+"), 2), (&format!("p/y/{k}/#"), 0)])),
        ("share", |c, k| subd(c, 3, &[(&format!("$share/g{k}/f"), 1), (&format!("$share/h/p/{k}"), 1)])),
        ("share wild", |c, k| subd(c, 4, &[(&format!("$share/g{k}/#"), 1), (&format!("$share/h/{k}/+"), 1)])),
        ("invalid", |c, k| subd(c, 5, &[(&format!("a{k}/#/b"), 1), (&format!("$share/{k}"), 1), (&format!("f{k}/c+"), 0)])),
        ("unsub", |c, k| unsubd(c, 6, &[&format!("f{k}"), &format!("p/{k}/x/+"), &format!("$share/g{k}/f"), &format!("none{k}/x")])),
        ("q0", |c, k| script![send(c, pub0(&format!("f{k}"), "0"))]),
        ("q1", |c, k| script![send(c, publ(&format!("f{k}"), 1, k as u16 + 1, "1"))]),
        ("q2", |c, k| script![send(c, publ(&format!("f{k}"), 2, k as u16 + 1, "2"))]),
        ("rel", |c, k| script![send(c, C::PubRel(k as u16 + 1))]),
        ("half", |c, _| script![raw(c, vec![0x30, 50, 0, 1])]),
    ];
    let ends: Vec<(&str, Gen)> = vec![
        ("DISCONNECT", |c, _| script![send(c, C::Disconnect), raw(c, vec![])]),
        ("eof", |c, _| script![eof(c)]),
        ("reset", |c, _| script![reset(c)]),
        ("gone", |c, _| script![gone(c)]),
        ("malformed", |c, _| script![raw(c, vec![0xf3; 80])]),
        ("CONNECT", |c, k| script![send(c, conn(&format!("x{k}")))]),
    ];
    let (warm, n) = (200, 200);
    for seq in seqs(&(0..ops.len()).collect::<Vec<_>>(), if thorough { 3 } else { 2 }) {
        for (e, end) in ends.iter().enumerate() {
            if !thorough && seq.len() == 2 && (seq[0] + seq[1] * 3) % ends.len() != e {
                continue;
            }
            if seq.len() == 3 && (seq[0] + seq[1] * 3 + seq[2] * 5) % ends.len() != e {
                continue;
            }
            let nm: Vec<&str> = seq.iter().map(|i| ops[*i].0).collect();
            if nm.iter().rev().skip(1).any(|x| *x == "half") {
                continue;
            }
            let mut s = Scenario::new(format!("comes and goes: {} then {}", nm.join(", "), end.0));
            s.spin = 100_000;
            s.max_steps = 5_000_000;
            let o = s.conn();
            let mut v = script![join(o, "stays"), subd(o, 1, &[("p/q", 1), ("$share/h/p", 0), ("f", 2)])];
            for k in 0..warm + n {
                let c = s.conn();
                v.extend(join(c, &format!("x{k}")));
                for i in &seq {
                    v.extend((ops[*i].1)(c, k));
                }
                v.extend((end.1)(c, k));
                if nm.contains(&"half") {
                    // what follows half a packet belongs to it
                    v.push(eof(c));
                }
                v.push(Step::Quiet);
                if k == warm - 1 {
                    v.push(Step::Heap);
                }
            }
            v.push(Step::Heap);
            s.actor(v);
            s.autoack = true;
            s.oracle = flat(n, 8);
            out.push(s);
        }
    }
    // connections that never become clients
    let firsts: Vec<(&str, Gen)> = vec![
        ("nothing", |_, _| vec![]),
        ("half a CONNECT", |c, _| script![raw(c, conn("x").enc()[..9].to_vec())]),
        ("PUBLISH", |c, k| script![send(c, pub0(&format!("{k}"), "x"))]),
        ("SUBSCRIBE", |c, k| script![send(c, sub(1, &[(&format!("{k}"), 1)]))]),
        ("level", |c, k| script![send(c, C::Connect(Connect { level: 9, ..connect(&format!("x{k}")) }))]),
        ("empty identifier", |c, _| script![send(c, C::Connect(Connect { id: String::new(), clean: false, ..connect("") }))]),
        ("anonymous", |c, _| script![send(c, C::Connect(Connect { id: String::new(), ..connect("") })), await_connack(c)]),
        ("anonymous subscriber", |c, k| {
            script![send(c, C::Connect(Connect { id: String::new(), ..connect("") })), await_connack(c), subd(c, 1, &[(&format!("z{k}"), 1)])]
        }),
        ("failed accept", |_, k| script![Step::AcceptFail(accept_failures()[k % 5])]),
        ("waits for its time-out", |_, _| script![Step::Advance(61_000), Step::Quiet]),
    ];
    for (nm, first) in &firsts {
        for (e, end) in &ends {
            let mut s = Scenario::new(format!("{nm} then {e}"));
            s.spin = 100_000;
            s.max_steps = 5_000_000;
            let mut v = vec![];
            for k in 0..warm + n {
                let c = s.conn();
                v.push(open(c));
                v.extend(first(c, k));
                v.extend(end(c, k));
                // a CONNECT at last may have begun a session
                v.push(Step::Quiet);
                v.push(send(c, C::Disconnect));
                if nm.starts_with("half") {
                    v.push(eof(c));
                }
                v.push(Step::Quiet);
                if k == warm - 1 {
                    v.push(Step::Heap);
                }
            }
            v.push(Step::Heap);
            s.actor(v);
            s.oracle = flat(n, 8);
            out.push(s);
        }
    }
    // One client that stays, and another that hears everything.
    let long: Vec<(&str, Gen)> = vec![
        ("sub and unsub", |c, k| script![subd_n(c, 1, &[(&format!("f{k}/x"), 1)]), send(c, unsub(2, &[&format!("f{k}/x")]))]),
        ("sub and unsub share", |c, k| {
            script![send(c, sub(1, &[(&format!("$share/g{k}/x"), 1)])), send(c, unsub(2, &[&format!("$share/g{k}/x")]))]
        }),
        ("sub and unsub share wild", |c, k| {
            script![send(c, sub(1, &[(&format!("$share/g{k}/x/#"), 1)])), send(c, unsub(2, &[&format!("$share/g{k}/x/#")]))]
        }),
        ("sub again", |c, k| script![send(c, sub(1, &[("same", (k % 3) as u8), ("$share/g/same", 1)]))]),
        ("invalid", |c, k| script![send(c, sub(1, &[(&format!("a{k}#"), 1)])), send(c, unsub(2, &[&format!("a{k}#")]))]),
        ("unsub", |c, k| script![send(c, unsub(2, &[&format!("never/{k}"), &format!("$share/{k}/x")]))]),
        ("q0", |c, k| script![send(c, pub0(&format!("t{k}"), "0"))]),
        ("q1", |c, k| script![send(c, publ(&format!("t{k}"), 1, id(k), "1"))]),
        ("q2", |c, k| script![send(c, publ("t", 2, id(k), "2")), send(c, C::PubRel(id(k)))]),
        ("q2 resent", |c, k| script![sends(c, &[publ("t", 2, id(k), "2"), publ("t", 2, id(k), "2"), C::PubRel(id(k)), C::PubRel(id(k))])]),
        ("strange acknowledgements", |c, k| script![sends(c, &[C::PubAck(id(k)), C::PubRec(id(k)), C::PubComp(id(k)), C::PubRel(id(k))])]),
        ("ping", |c, _| script![send(c, C::Ping)]),
        ("pieces", |c, k| {
            let b = publ("t", 1, id(k), "some payload").enc();
            script![raw(c, b[..3].to_vec()), Step::Quiet, raw(c, b[3..9].to_vec()), Step::Quiet, raw(c, b[9..].to_vec())]
        }),
        ("time", |c, _| script![Step::Advance(1000), send(c, C::Ping)]),
        ("deep", |c, k| script![send(c, sub(1, &[(&format!("{}{k}", "d/".repeat(150)), 1)])), send(c, unsub(2, &[&format!("{}{k}", "d/".repeat(150))]))]),
        ("size", |c, k| script![send(c, publ("t", 1, id(k), &"z".repeat(k * 7919 % 20_000)))]),
    ];
    let cycles = if thorough { 6000 } else { 1500 };
    for (i, a) in long.iter().enumerate() {
        for (j, b) in long.iter().enumerate() {
            if j < i || (!thorough && i != j && (i + j) % 3 != 0) {
                continue;
            }
            let mut s = Scenario::new(format!("stays: {}, {}", a.0, b.0));
            s.spin = 100_000;
            s.max_steps = 10_000_000;
            let (c, o) = (s.conn(), s.conn());
            let mut v = script![join(o, "o"), subd(o, 1, &[("#", 2)]), join(c, "c"), subd(c, 1, &[("t", 2)])];
            for k in 0..cycles + 400 {
                v.extend(a.1(c, k));
                if i != j {
                    v.extend(b.1(c, k + 10_000));
                }
                v.push(Step::Quiet);
                if k == 399 {
                    v.push(Step::Heap);
                }
            }
            v.push(Step::Heap);
            s.actor(v);
            // room for buffers whose size depends on what came by
            s.oracle = flat(cycles, 1);
            out.push(s);
        }
    }
    // Sessions that are kept are kept once.
    for e in 0..5 {
        for extra in 0..3 {
            let mut s = Scenario::new(format!("the same session over and over, end {e}, extra {extra}"));
            s.spin = 100_000;
            s.max_steps = 5_000_000;
            let p = s.conn();
            let mut v = join(p, "p");
            for k in 0..400 {
                let c = s.conn();
                v.extend(pjoin(c, "x"));
                v.extend(subd(c, 1, &[("t", 1), ("t/#", 2), ("$share/g/t", 1)]));
                match extra {
                    1 => v.push(send(p, publ("t", 1, 1, "to it"))),
                    2 => v.extend(unsubd(c, 2, &["t", "$share/g/t"])),
                    _ => {}
                }
                match e {
                    0 => v.push(send(c, C::Disconnect)),
                    1 => v.push(eof(c)),
                    2 => v.push(reset(c)),
                    3 => {}
                    _ => v.push(raw(c, vec![0xf0, 0])),
                }
                if extra == 1 {
                    v.push(send(p, publ("t", 1, 1, "to nobody")));
                }
                v.push(Step::Quiet);
                if k == 199 {
                    v.push(Step::Heap);
                }
            }
            v.push(Step::Heap);
            s.actor(v);
            s.oracle = flat(200, 0);
            out.push(s);
        }
    }
    // What waits for a client that does not read is gone once it read it, or once it is gone.
    for e in 0..4 {
        for q in [0u8, 1] {
            for m in [50usize, 700] {
                let mut s = Scenario::new(format!("floods of {m} q{q}, end {e}"));
                s.spin = 400_000;
                s.max_steps = 20_000_000;
                let p = s.conn();
                let mut v = join(p, "p");
                let msgs: Vec<C> = (0..m).map(|i| publ("t", q, i as u16 + 1, "a message of some length")).collect();
                let mut c = s.conn();
                v.extend(join(c, "r"));
                v.extend(subd(c, 1, &[("t", 1)]));
                for k in 0..30 {
                    v.push(window(c, Some(k)));
                    v.push(sends(p, &msgs));
                    v.push(Step::Quiet);
                    match e {
                        0 => v.push(window(c, None)),
                        1 => {
                            v.push(reset(c));
                        }
                        2 => v.push(gone(c)),
                        _ => {
                            // taken over
                        }
                    }
                    v.push(Step::Quiet);
                    if e > 0 {
                        c = s.conn();
                        v.extend(join(c, "r"));
                        v.extend(subd(c, 1, &[("t", 1)]));
                        v.push(Step::Quiet);
                    }
                    if k == 14 {
                        v.push(Step::Heap);
                    }
                }
                v.push(Step::Heap);
                s.actor(v);
                s.oracle = flat(15, 64);
                out.push(s);
            }
        }
    }
    // A packet takes memory as it arrives, not as it announces itself.
    for ty in [0x10u8, 0x30, 0x32, 0x82, 0xa2, 0x62, 0xc0] {
        for before in [true, false] {
            for (ln, len) in [("max", vec![0xff, 0xff, 0xff, 0x7f]), ("16 MB", vec![0x80, 0x80, 0x80, 8]), ("2 MB", vec![0xff, 0xff, 0x7f])] {
                let mut s = Scenario::new(format!("announcements type {ty:02x} {ln} before CONNECT={before}"));
                let sizes = [0usize, 1, 100, 10_000, 100_000];
                let mut v = script![Step::Quiet, Step::Heap];
                let mut limits = vec![];
                let k = 8;
                for (i, sz) in sizes.iter().enumerate() {
                    for j in 0..k {
                        let c = s.conn();
                        if before {
                            v.push(open(c));
                        } else {
                            v.extend(join(c, &format!("c{i}.{j}")));
                        }
                        v.push(raw(c, [&[ty][..], &len, &vec![0; *sz]].concat()));
                        v.push(Step::Quiet);
                    }
                    v.push(Step::Heap);
                    let sofar: usize = sizes[..=i].iter().sum();
                    limits.push(k * ((i + 1) * 300_000 + sofar * 4));
                }
                s.actor(v);
                s.spin = 100_000;
                s.oracle = at_most(limits);
                out.push(s);
            }
        }
    }
    // clients end while the broker's queue is full
    for (e, end) in ends.iter().enumerate() {
        for policy in [Policy::Fifo, Policy::Lifo] {
            let mut s = Scenario::new(format!("{} while the queue is full, {policy:?}", end.0));
            s.spin = 400_000;
            s.max_steps = 20_000_000;
            s.eager = true;
            s.cost[K::Early as usize] = OFF;
            s.policy = policy;
            let ps: Vec<usize> = (0..3).map(|_| s.conn()).collect();
            let mut v = vec![];
            for (i, p) in ps.iter().enumerate() {
                v.extend(join(*p, &format!("p{i}")));
            }
            let flood: Vec<C> = (0..300).map(|_| pub0("none", "m")).collect();
            for k in 0..80 {
                let cs: Vec<usize> = (0..6).map(|_| s.conn()).collect();
                for (i, c) in cs.iter().enumerate() {
                    v.extend(join(*c, &format!("x{k}.{i}")));
                    v.extend(subd(*c, 1, &[(&format!("f{k}/{i}"), 1), (&format!("$share/g/{}", "f".repeat(100)), 0)]));
                }
                v.push(Step::Quiet);
                v.push(sends(ps[0], &flood));
                for (i, c) in cs.iter().enumerate() {
                    v.extend((ends[(e + i / 3) % ends.len()].1)(*c, k));
                    if i % 2 == 0 {
                        v.push(sends(ps[1 + i % 4 / 2], &flood));
                    }
                }
                v.push(Step::Quiet);
                if k == 39 {
                    v.push(Step::Heap);
                }
            }
            v.push(Step::Heap);
            s.actor(v);
            s.oracle = flat(40, 32);
            out.push(s);
        }
    }
    // Answers that are not read do not pile up, and no more than 10,000 messages wait for one client.
    for n in [1000usize, 8000] {
        let mut s = Scenario::new(format!("{n} answers not read"));
        s.spin = 400_000;
        s.max_steps = 20_000_000;
        let x = s.conn();
        let reqs: Vec<C> = (0..n)
            .map(|i| match i % 4 {
                0 => sub(id(i), &[("t", 0)]),
                1 => C::Ping,
                2 => publ("none", 1, id(i), "x"),
                _ => unsub(id(i), &["u"]),
            })
            .collect();
        s.actor(script![join(x, "x"), window(x, Some(0)), Step::Quiet, Step::Heap, sends(x, &reqs), Step::Quiet, Step::Heap]);
        s.oracle = at_most(vec![150_000]);
        out.push(s);
    }
    // whoever is closed because too much waits for it leaves nothing behind
    let mut s = Scenario::new("closed for what waits");
    s.spin = 4_000_000;
    s.max_steps = 50_000_000;
    let p = s.conn();
    let mut v = join(p, "p");
    let msgs: Vec<C> = (0..10_010).map(|_| pub0("t", "m")).collect();
    for k in 0..10 {
        let c = s.conn();
        let long: Vec<String> = (0..10).map(|i| format!("{}/{k}/{i}", "l".repeat(60_000))).collect();
        v.extend(join(c, &format!("r{k}")));
        v.extend(subd(c, 1, &[("t", 0)]));
        v.extend(subd(c, 2, &long.iter().map(|f| (f.as_str(), 1)).collect::<Vec<_>>()));
        v.push(window(c, Some(0)));
        v.extend(msgs.chunks(1000).map(|ch| sends(p, ch)));
        v.push(Step::Quiet);
        v.push(await_closed(c));
        v.push(Step::Quiet);
        if k == 4 {
            v.push(Step::Heap);
        }
    }
    v.push(Step::Heap);
    s.actor(v);
    s.oracle = flat(5, 20_000);
    out.push(s);
    let mut s = Scenario::new("more messages than may wait");
    s.spin = 4_000_000;
    s.max_steps = 50_000_000;
    let (r, p) = (s.conn(), s.conn());
    let mut v = script![join(r, "r"), subd(r, 1, &[("t", 0)]), window(r, Some(0)), join(p, "p"), Step::Quiet, Step::Heap];
    let mut limits = vec![];
    for k in 0..4 {
        for _ in 0..12 {
            v.push(sends(p, &(0..500).map(|i| pub0("t", &format!("{k}.{i} {}", "x".repeat(200)))).collect::<Vec<_>>()));
            v.push(Step::Quiet);
        }
        v.push(Step::Heap);
        limits.push(12_000_000);
    }
    s.actor(v);
    s.oracle = at_most(limits);
    out.push(s);
}

fn id(k: usize) -> u16 {
    (k % 65_535) as u16 + 1
}
/// SUBSCRIBE without waiting (the reply is one of many alike).
fn subd_n(c: usize, pid: u16, fs: &[(&str, u8)]) -> Vec<Step> {
    script![send(c, sub(pid, fs))]
}
