//! Load, shutdown, statistics: C15, C17, C18.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::monitor::{monitor, Opt};
use crate::scen::*;
use crate::script;
use crate::Tier;
use std::sync::Arc;

/// Standard rules, and no connection that reads again is left with half a packet.
fn load_oracle() -> Oracle {
    Arc::new(|r, bad| {
        monitor(r, Opt::default(), bad);
        for (c, o) in r.obs.conns.iter().enumerate() {
            if o.opened && !o.lost && !o.stalled && !o.dropped && o.rest > 0 {
                bad.push(format!("c{c} reads, but is left with half a packet"));
            }
        }
    })
}

pub fn c15(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let sizes: Vec<usize> = if thorough {
        vec![1, 2, 50, 97, 98, 99, 100, 101, 102, 103, 150, 198, 199, 200, 201, 202, 203, 250, 300, 301, 302, 400, 1000, 5000, 20_000, 70_000]
    } else {
        vec![1, 50, 99, 100, 101, 102, 150, 199, 200, 201, 202, 250, 302, 1000, 3000]
    };
    for &n in &sizes {
        for (pn, pol) in [("fifo", Policy::Fifo), ("lifo", Policy::Lifo)] {
            for q in [0u8, 1] {
                if n > 5000 && (q == 1 || pol == Policy::Lifo) {
                    continue;
                }
                // one reader is stalled, another is not
                let mut s = Scenario::new(format!("stalled reader, {n} messages q{q} {pn}"));
                s.spin = 400_000;
                s.max_steps = 5_000_000;
                s.policy = pol;
                let (st, ok, p, nw, st2) = (s.conn(), s.conn(), s.conn(), s.conn(), s.conn());
                let msgs: Vec<C> = (0..n).map(|i| publ("t", q, (i % 65_535) as u16 + 1, &format!("m{i}"))).collect();
                // the reader that keeps reading acknowledges; the flood is split so that it keeps up
                let mut v = script![
                    join(st, "stalled"),
                    subd(st, 1, &[("t", q)]),
                    window(st, Some([0usize, 3, 50][n % 3])),
                    join(ok, "ok"),
                    subd(ok, 1, &[("t", q)]),
                    join(p, "p")
                ];
                for ch in msgs.chunks(500) {
                    v.push(sends(p, ch));
                    if n > 500 {
                        v.push(Step::Quiet);
                    }
                }
                v.push(await_pubs(ok, n));
                if q == 1 {
                    v.push(wait(format!("{n} PUBACKs"), move |o| o.count(p, |x| matches!(x, S::PubAck(_))) >= n));
                }
                v.extend(script![
                    join(nw, "new"),
                    subd(nw, 1, &[("u", 1)]),
                    send(p, publ("u", 2, 1, "u1")),
                    await_pubs(nw, 1),
                    await_n(p, S::PubRec(1), 1),
                    branch(vec![
                        script![window(st, None), Step::Quiet, send(p, pub0("t", "afterwards")), Step::Quiet],
                        script![window(st, Some(1)), Step::Quiet, window(st, Some(30)), Step::Quiet, window(st, None), Step::Quiet],
                        script![join(st2, "stalled"), subd(st2, 1, &[("t", 0)]), send(p, pub0("t", "taken over")), await_pubs(st2, 1), await_closed(st)],
                        script![reset(st), Step::Quiet, send(p, pub0("t", "gone")), Step::Quiet],
                    ]),
                    send(ok, C::Ping),
                    await_n(ok, S::PingResp, 1),
                    unsubd(ok, 9, &["t"])
                ]);
                s.actor(v);
                s.probe();
                s.oracle = load_oracle();
                s.parts = if n > 300 { 4 } else { 1 };
                out.push(s);
            }
        }
    }
    // as many messages as have to be kept, and more
    for n in [9_999usize, 10_000, 10_001, 10_002, 10_050, 12_000] {
        for q in [0u8, 1, 2] {
            let mut s = Scenario::new(format!("queue of {n} q{q}"));
            s.spin = 400_000;
            s.max_steps = 5_000_000;
            s.cost[K::Early as usize] = OFF;
            let (st, p, other, nw) = (s.conn(), s.conn(), s.conn(), s.conn());
            let msgs: Vec<C> = (0..n).map(|i| publ("t", q.min(1), i as u16 + 1, &format!("m{i}"))).collect();
            let mut v = script![
                branch(vec![join(st, "stalled"), pjoin(st, "stalled")]),
                subd(st, 1, &[("t", q), ("u", 0)]),
                window(st, Some(0)),
                join(other, "other"),
                subd(other, 1, &[("u", 1)]),
                join(p, "p")
            ];
            for ch in msgs.chunks(1000) {
                v.push(sends(p, ch));
            }
            v.extend(script![
                Step::Quiet,
                send(p, publ("u", 1, 60_000, "after")),
                await_pubs(other, 1),
                Step::Quiet,
                window(st, None),
                Step::Quiet,
                send(p, pub0("t", "afterwards")),
                Step::Quiet,
                pjoin(nw, "stalled"),
                send(p, pub0("t", "at last")),
                Step::Quiet
            ]);
            s.actor(v);
            s.probe();
            s.oracle = load_oracle();
            out.push(s);
        }
    }
    // several clients whose queues are full: only the one with more than that is too slow
    for n in 9_999usize..=10_002 {
        let mut s = Scenario::new(format!("several queues of {n}"));
        s.spin = 400_000;
        s.max_steps = 5_000_000;
        s.cost[K::Early as usize] = OFF;
        let p = s.conn();
        let cs: Vec<usize> = (0..3).map(|_| s.conn()).collect();
        let mut v = join(p, "p");
        for (i, &c) in cs.iter().enumerate() {
            v.extend(join(c, &format!("s{i}")));
            v.extend(subd(c, 1, &[("t", 0), (&format!("u/{i}"), 0)]));
            v.push(window(c, Some(0)));
        }
        for ch in (0..n).map(|i| pub0("t", &format!("m{i}"))).collect::<Vec<_>>().chunks(1000) {
            v.push(sends(p, ch));
        }
        v.push(Step::Quiet);
        v.push(branch((0..3).map(|i| script![sends(p, &[pub0(&format!("u/{i}"), "a"), pub0(&format!("u/{i}"), "b")])]).collect()));
        v.push(Step::Quiet);
        v.extend(cs.iter().map(|c| window(*c, None)));
        v.extend(script![Step::Quiet, send(p, pub0("t", "afterwards")), Step::Quiet]);
        s.actor(v);
        s.probe();
        s.oracle = load_oracle();
        s.parts = 3;
        out.push(s);
    }
    // schedules while the queue is nearly full
    for (room, read) in [(2usize, 3usize), (1, 2), (0, 1), (1, 40), (1, 0)] {
        let mut s = Scenario::new(format!("schedules, room {room}, {read} read"));
        s.spin = 400_000;
        s.max_steps = 5_000_000;
        let (st, p, q) = (s.conn(), s.conn(), s.conn());
        let n = 10_000 - room;
        let msgs: Vec<C> = (0..n).map(|i| pub0("t", &format!("m{i}"))).collect();
        let mut v = script![join(st, "stalled"), subd(st, 1, &[("t", 0)]), window(st, Some(0)), join(p, "p"), join(q, "q")];
        v.extend(msgs.chunks(1000).map(|ch| sends(p, ch)));
        // the first message is being written already
        s.late(
            v,
            vec![
                script![sends(p, &[pub0("t", "x1"), pub0("t", "x2"), pub0("t", "x3"), pub0("t", "x4")])],
                script![window(st, Some(read * 9)), send(q, C::Ping)],
            ],
            script![window(st, None), Step::Quiet, send(p, pub0("t", "last")), Step::Quiet],
        );
        s.probe();
        s.oracle = load_oracle();
        s.budget = if thorough { 2 } else { 1 };
        s.parts = if thorough { 16 } else { 4 };
        vary(s, out);
    }
    // clients that flood each other and do not read
    for &n in &sizes {
        if n > 3000 {
            continue;
        }
        for (k, own) in [(2usize, false), (2, true), (3, false)] {
            for pol in [Policy::Fifo, Policy::Lifo] {
                let mut s = Scenario::new(format!("{k} flooding clients that do not read, {n} messages, own={own} {pol:?}"));
                s.spin = 400_000;
                s.max_steps = 5_000_000;
                s.policy = pol;
                let cs: Vec<usize> = (0..k).map(|_| s.conn()).collect();
                let (ok, p) = (s.conn(), s.conn());
                let mut v = vec![];
                for (i, c) in cs.iter().enumerate() {
                    v.extend(join(*c, &format!("f{i}")));
                    v.extend(subd(*c, 1, &[(if own { "f/#" } else { ["f/1", "f/2", "f/0"][if k == 2 { [0, 2, 0][i] } else { i }] }, 1)]));
                    v.push(window(*c, Some(0)));
                }
                v.extend(join(ok, "ok"));
                v.extend(subd(ok, 1, &[("u", 1)]));
                let big: Vec<Vec<C>> = cs.iter().enumerate().map(|(i, _)| (0..n).map(|j| publ(&format!("f/{i}"), 1, j as u16 + 1, &format!("{i}.{j}"))).collect()).collect();
                for (i, c) in cs.iter().enumerate() {
                    v.push(sends(*c, &big[i]));
                }
                v.extend(script![
                    join(p, "p"),
                    send(p, publ("u", 1, 1, "u1")),
                    await_n(p, S::PubAck(1), 1),
                    await_pubs(ok, 1),
                    send(ok, C::Ping),
                    await_n(ok, S::PingResp, 1)
                ]);
                v.push(branch(vec![
                    script![],
                    cs.iter().map(|c| window(*c, None)).chain([Step::Quiet]).collect(),
                    cs.iter().map(|c| eof(*c)).chain([Step::Quiet]).collect(),
                    cs.iter().map(|c| gone(*c)).chain([Step::Quiet]).collect(),
                ]));
                s.actor(v);
                s.probe();
                s.eager = pol == Policy::Lifo;
                s.cost[K::Early as usize] = OFF;
                s.oracle = load_oracle();
                out.push(s);
            }
        }
    }
    // requests whose answers are not read
    for n in [3usize, 120, 250, 700] {
        let mut s = Scenario::new(format!("{n} unanswered requests"));
        s.spin = 400_000;
        let (x, ok) = (s.conn(), s.conn());
        let reqs: Vec<C> = (0..n)
            .map(|i| match i % 4 {
                0 => sub(i as u16 + 1, &[("t", 1)]),
                1 => C::Ping,
                2 => publ("t", 2, i as u16 + 1, &format!("{i}")),
                _ => unsub(i as u16 + 1, &["zzz"]),
            })
            .collect();
        s.actor(script![
            join(x, "x"),
            subd(x, 9999, &[("t", 0)]),
            window(x, Some(0)),
            join(ok, "ok"),
            subd(ok, 1, &[("t", 0)]),
            sends(x, &reqs),
            Step::Quiet,
            sends(ok, &(0..n).map(|i| pub0("t", &format!("ok{i}"))).collect::<Vec<_>>()),
            Step::Quiet,
            wait(format!("{n} own messages"), move |o| o.count(ok, |q| matches!(q, S::Publish { payload, .. } if payload.starts_with(b"ok"))) >= n),
            window(x, None),
            Step::Quiet
        ]);
        s.probe();
        s.oracle = load_oracle();
        out.push(s);
    }
    // clients that send nothing, or stop in the middle of a packet
    super::life::silent("silent clients", false, out);
    // clients that come in the middle of a flood may fall as far behind as all others
    for n in if thorough { vec![60usize, 99, 100, 101, 150, 200, 300, 1000] } else { vec![60, 101, 150, 300] } {
        for two in [false, true] {
            let mut s = Scenario::new(format!("joining a flood of {n}, two={two}"));
            s.spin = 400_000;
            s.max_steps = 2_000_000;
            let (p, q, x) = (s.conn(), s.conn(), s.conn());
            let msgs = |tag: &str, n: usize| (0..n).map(|i| pub0("t", &format!("{tag}{i}"))).collect::<Vec<_>>();
            let mut v = script![join(p, "p"), join(q, "q"), Step::Quiet, sends(p, &msgs("p", n))];
            if two {
                v.push(sends(q, &msgs("q", n)));
            }
            v.extend(script![open(x), sends(x, &[conn("x"), sub(1, &[("t", 0)])]), await_any(x, 2), window(x, Some(0))]);
            for k in 0..40 {
                v.push(sends(p, &msgs(&format!("{k}."), 70)));
                v.push(Step::Quiet);
            }
            v.extend([window(x, None), Step::Quiet]);
            s.actor(v);
            s.oracle = load_oracle();
            vary(s, out);
        }
    }
    // many stalled readers
    for k in [5usize, 30, 300, 1_100] {
        let n = if k > 100 { 30 } else { 250 };
        let mut s = Scenario::new(format!("{k} stalled readers"));
        s.spin = 400_000;
        let mut v = vec![];
        let p = s.conn();
        for i in 0..k {
            let c = s.conn();
            v.extend(join(c, &format!("s{i}")));
            v.extend(subd(c, 1, &[("t", (i % 3) as u8)]));
            v.push(window(c, Some(i % 60)));
        }
        let ok = s.conn();
        v.extend(script![join(ok, "ok"), subd(ok, 1, &[("t", 2)]), join(p, "p")]);
        v.push(sends(p, &(0..n as u16).map(|i| publ("t", 1, i + 1, &format!("{i}"))).collect::<Vec<_>>()));
        v.push(await_pubs(ok, n));
        s.actor(v);
        s.probe();
        s.oracle = load_oracle();
        out.push(s);
    }
    // schedules around a stall
    let mut s = Scenario::new("schedules");
    let (st, ok, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(st, "st"), subd(st, 1, &[("t", 1)]), window(st, Some(0))]);
    s.actor(script![after(0, 6), join(p, "p"), send(p, publ("t", 1, 1, "1")), send(p, publ("t", 1, 2, "2")), await_n(p, S::PubAck(2), 1)]);
    s.actor(script![join(ok, "ok"), subd(ok, 1, &[("t", 0)]), send(ok, C::Ping), await_n(ok, S::PingResp, 1)]);
    s.oracle = load_oracle();
    s.budget = if thorough { 2 } else { 1 };
    s.parts = if thorough { 16 } else { 2 };
    vary(s, out);
}

fn exit_oracle() -> Oracle {
    Arc::new(|r, bad| {
        monitor(r, Opt::default(), bad);
        if !r.log.iter().any(|e| matches!(e.1, Ev::CtrlC)) {
            return;
        }
        if r.end == End::Exited {
            for (c, o) in r.obs.conns.iter().enumerate() {
                if o.accepted && !o.dropped {
                    bad.push(format!("c{c} is not closed at exit"));
                }
            }
            if !r.obs.listener_dropped {
                bad.push("the listener is not closed at exit".into());
            }
            let sig = r.log.iter().position(|e| matches!(e.1, Ev::CtrlC)).unwrap();
            let quiet = r.log[sig..].iter().any(|e| matches!(e.1, Ev::Advance(_)));
            // pauses of up to a second in all are no waiting for a client
            let late = r.log.last().map_or(0, |e| e.0) > r.log[sig].0 + 1_000;
            if late && !quiet {
                bad.push("shutdown waits for time to pass".into());
            }
        }
    })
}

pub fn c17(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let fin = |mut s: Scenario, out: &mut Vec<Scenario>| {
        s.must_exit = true;
        s.oracle = exit_oracle();
        out.push(s);
    };
    // the signal at every step of conversations (all orders, then one more deviation)
    for (n, k) in [("two clients", 0), ("takeover", 1), ("losses", 2), ("nobody", 3)] {
        let mut s = Scenario::new(format!("signal at any time, {n}"));
        let (a, b) = (s.conn(), s.conn());
        match k {
            0 => {
                s.actor(script![join(a, "a"), sends(a, &[sub(1, &[("t", 1)]), publ("t", 1, 2, "1"), publ("t", 2, 3, "2")])]);
                s.actor(script![open(b), send(b, conn("b")), send(b, pub0("t", "b"))]);
            }
            1 => {
                s.actor(script![join(a, "x"), subd(a, 1, &[("t", 1)]), send(a, publ("t", 1, 1, "a"))]);
                s.actor(script![join(b, "x"), subd(b, 1, &[("t", 1)])]);
            }
            2 => {
                s.actor(script![join(a, "a"), sends(a, &[sub(1, &[("t", 1)]), publ("t", 1, 2, "1")]), eof(a)]);
                s.actor(script![open(b), send(b, C::Raw(vec![0x10, 3, 0])), reset(b)]);
            }
            _ => {}
        }
        s.actor(script![Step::CtrlC]);
        s.cost[K::Env as usize] = 0;
        s.budget = if thorough { 2 } else { 1 };
        s.parts = 16;
        s.must_exit = true;
        s.oracle = exit_oracle();
        if thorough {
            vary(s, out);
        } else {
            let mut v = vec![];
            vary(s, &mut v);
            v.truncate(2);
            out.extend(v);
        }
    }
    // queues full and readers stalled
    for n in [1usize, 50, 99, 100, 101, 102, 150, 200, 201, 202, 250, 302, 600] {
        for own in [false, true] {
            for (pol, eager) in [(Policy::Fifo, false), (Policy::Lifo, true), (Policy::Fifo, true)] {
                let mut s = Scenario::new(format!("stalled readers, {n} messages, own={own} {pol:?} eager={eager}"));
                s.spin = 200_000;
                s.policy = pol;
                s.eager = eager;
                s.cost[K::Early as usize] = OFF;
                let (a, b, p, z) = (s.conn(), s.conn(), s.conn(), s.conn());
                let fl = |c: usize, tag: &str| sends(c, &(0..n).map(|i| publ("t", 1, i as u16 + 1, &format!("{tag}{i}"))).collect::<Vec<_>>());
                s.actor(script![
                    join(a, "a"),
                    subd(a, 1, &[("t", 1)]),
                    window(a, Some(0)),
                    join(b, "b"),
                    subd(b, 1, &[("t", 0)]),
                    window(b, Some(7)),
                    join(p, "p"),
                    if own { fl(a, "a") } else { fl(p, "p") },
                    if own { fl(b, "b") } else { send(p, C::Ping) },
                    open(z),
                    branch(vec![script![], script![Step::Quiet], script![send(z, conn("a"))], script![send(z, sub(1, &[("t", 0)]))]]),
                    Step::CtrlC
                ]);
                fin(s, out);
            }
        }
    }
    // many clients
    for n in [30usize, 120, 300] {
        let mut s = Scenario::new(format!("{n} clients"));
        s.spin = 100_000;
        let mut v = vec![];
        for i in 0..n {
            let c = s.conn();
            if i % 4 == 3 {
                v.push(open(c));
            } else {
                v.extend(join(c, &format!("c{i}")));
                v.extend(subd(c, 1, &[("t", 1)]));
            }
            if i % 5 == 0 {
                v.push(window(c, Some(0)));
            }
            if i % 3 == 1 {
                v.push(send(c, pub0("t", &format!("{i}"))));
            }
        }
        v.push(branch(vec![script![], script![Step::Quiet]]));
        v.push(Step::CtrlC);
        s.actor(v);
        fin(s, out);
    }
    // time has passed; keep-alives pending; a second signal; the accept queue not empty
    let mut s = Scenario::new("after a while");
    let (a, b, c) = (s.conn(), s.conn(), s.conn());
    s.actor(script![
        join(a, "a"),
        open(b),
        send(b, C::Connect(connect("b").keepalive(1000))),
        await_connack(b),
        Step::Advance(30_000),
        Step::Quiet,
        branch(vec![
            script![Step::CtrlC],
            script![Step::CtrlC, Step::CtrlC],
            script![open(c), Step::CtrlC],
            script![open(c), send(c, conn("c")), Step::CtrlC],
            script![send(a, C::Disconnect), Step::CtrlC],
            script![reset(a), gone(b), Step::CtrlC],
        ])
    ]);
    s.must_exit = true;
    s.oracle = Arc::new(|r, bad| {
        monitor(r, Opt { time: true, ..Opt::default() }, bad);
        for (c, o) in r.obs.conns.iter().enumerate() {
            if o.accepted && !o.dropped {
                bad.push(format!("c{c} is not closed at exit"));
            }
        }
    });
    s.eager = true;
    s.budget = 1;
    vary(s, out);
    // the signal while connections keep arriving
    let mut s = Scenario::new("signal among arrivals");
    let cs: Vec<usize> = (0..6).map(|_| s.conn()).collect();
    let mut v = vec![];
    for (i, c) in cs.iter().enumerate() {
        v.push(open(*c));
        v.push(send(*c, conn(&format!("c{i}"))));
    }
    s.actor(v);
    s.actor(script![Step::CtrlC]);
    s.cost[K::Env as usize] = 0;
    s.budget = if thorough { 2 } else { 1 };
    s.parts = 8;
    s.must_exit = true;
    s.oracle = exit_oracle();
    vary(s, out);
}

/// The difference of the statistics between the first and the last reading equals the wire log.
pub fn stats_oracle() -> Oracle {
    stats_oracle_for(true)
}

/// Without `received`, what was read in the end is left open (packets the broker had, but did not get to).
fn stats_oracle_for(received: bool) -> Oracle {
    Arc::new(move |r, bad| {
        monitor(r, Opt::default(), bad);
        let st: Vec<(usize, [usize; 7])> =
            r.log.iter().enumerate().filter_map(|(i, e)| if let Ev::Stats(s) = &e.1 { Some((i, *s)) } else { None }).collect();
        if st.len() < 2 {
            if r.end == End::Done {
                bad.push("HARNESS: statistics not read".into());
            }
            return;
        }
        let (i0, base) = st[0];
        let m = crate::monitor::Model::new(r);
        for (i, s) in &st[1..] {
            let d = |k: usize| s[k].wrapping_sub(base[k]) as isize;
            let (mut rb, mut rp, mut rpub, mut sb, mut sp, mut spub, mut open) = (0usize, 0, 0, 0, 0, 0, 0isize);
            for (c, x) in m.conns.iter().enumerate() {
                for it in &x.items {
                    // packets that were processed: well-formed and complete
                    if it.lo > i0 && it.lo < *i {
                        if let Ok(p) = &it.p {
                            rp += 1;
                            rpub += matches!(p, C::Publish { .. }) as usize;
                        }
                    }
                }
                let mut at = 0;
                for it in &x.items {
                    if it.lo > i0 && it.lo < *i && it.p.is_ok() {
                        rb += it.end - at;
                    }
                    at = it.end;
                }
                let _ = c;
            }
            for (k, (_, e)) in r.log.iter().enumerate() {
                if k <= i0 || k >= *i {
                    continue;
                }
                match e {
                    Ev::Out(_, p) => {
                        sp += 1;
                        spub += matches!(p, S::Publish { .. }) as usize;
                        sb += size(p);
                    }
                    Ev::Accepted(_) => open += 1,
                    Ev::Dropped(_) => open -= 1,
                    _ => {}
                }
            }
            for (n, got, want) in [
                ("bytes received", d(0), rb as isize),
                ("bytes sent", d(1), sb as isize),
                ("clients connected", d(2), open),
                ("packets received", d(3), rp as isize),
                ("packets sent", d(4), sp as isize),
                ("PUBLISH packets received", d(5), rpub as isize),
                ("PUBLISH packets sent", d(6), spub as isize),
            ] {
                if !received && n.ends_with("received") {
                    continue;
                }
                // bytes of a packet that was not sent as a whole may count or not
                let half: usize = if n == "bytes sent" { r.obs.conns.iter().map(|c| c.rest).sum() } else { 0 };
                if got < want || got > want + half as isize {
                    bad.push(format!("statistics: {n} grew by {got}, on the wire by {want}"));
                }
            }
        }
    })
}

fn size(p: &S) -> usize {
    let body = match p {
        S::ConnAck(..) | S::PubAck(_) | S::PubRec(_) | S::PubRel(_) | S::PubComp(_) | S::UnsubAck(_) => 2,
        S::SubAck(_, c) => 2 + c.len(),
        S::PingResp => 0,
        S::Publish { topic, payload, qos, .. } => 2 + topic.len() + payload.len() + if *qos > 0 { 2 } else { 0 },
        S::Bad(_) => 0,
    };
    let mut l = vec![];
    put_len(&mut l, body);
    1 + l.len() + body
}

pub fn c18(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let fin = |mut s: Scenario, out: &mut Vec<Scenario>| {
        s.oracle = stats_oracle();
        out.push(s);
    };
    // histories of packets and ends
    let n = if thorough { 3 } else { 2 };
    let mut s = Scenario::new("histories");
    s.autoack = true;
    let (a, b) = (s.conn(), s.conn());
    let mut v = script![Step::Quiet, Step::Stats, join(b, "b"), subd(b, 1, &[("t", 1)]), Step::Stats, open(a), Step::Stats, send(a, conn("a")), await_connack(a)];
    for k in 0..n as u16 {
        let ops = vec![
            sub(k + 1, &[("t", 2), ("u", 0)]),
            unsub(k + 1, &["t"]),
            pub0("t", "0"),
            publ("t", 1, k + 1, "1"),
            publ("t", 2, k + 1, "2"),
            C::PubRel(k),
            C::PubRec(k + 9),
            C::PubAck(77),
            C::PubComp(77),
            C::Ping,
            publ("nobody", 1, 5, &"x".repeat(200)),
            // sent again
            C::Publish { dup: true, qos: 1, retain: true, topic: "t".into(), pid: k, payload: vec![] },
            C::Publish { dup: true, qos: 2, retain: false, topic: "u".into(), pid: k + 1, payload: vec![1] },
        ];
        v.push(branch(ops.into_iter().map(|p| script![send(a, p), Step::Quiet, Step::Stats]).collect()));
    }
    v.push(branch(ends(a)));
    v.push(Step::Quiet);
    v.push(Step::Stats);
    s.actor(v);
    s.parts = 16;
    fin(s, out);
    // ends of connections that never connected, or in other states
    let mut s = Scenario::new("ends");
    let (a, b, c) = (s.conn(), s.conn(), s.conn());
    s.actor(script![
        Step::Quiet,
        Step::Stats,
        open(a),
        Step::Quiet,
        Step::Stats,
        branch(ends(a)),
        Step::Quiet,
        Step::Stats,
        open(b),
        branch(vec![
            script![],
            script![raw(b, conn("b").enc()[..5].to_vec())],
            script![sends(b, &[conn("b"), sub(1, &[("t", 0)])])],
            script![raw(b, [conn("b").enc(), vec![0x82, 20, 0]].concat())]
        ]),
        branch(ends(b)),
        Step::Quiet,
        Step::Stats,
        join(c, "c"),
        subd(c, 1, &[("t", 0)]),
        send(c, publ("t", 1, 1, "x")),
        Step::Quiet,
        Step::Stats
    ]);
    s.parts = 4;
    fin(s, out);
    // takeovers, and idle connections that time out
    let mut s = Scenario::new("takeovers");
    let (a, b, c) = (s.conn(), s.conn(), s.conn());
    s.actor(script![Step::Quiet, Step::Stats, join(a, "x"), subd(a, 1, &[("t", 0)]), Step::Quiet, Step::Stats, join(b, "x"), Step::Quiet, Step::Stats, pjoin(c, "x"), Step::Quiet, Step::Stats]);
    fin(s, out);
    let mut s = Scenario::new("time-outs");
    let (a, b) = (s.conn(), s.conn());
    s.actor(script![
        Step::Quiet,
        Step::Stats,
        open(a),
        send(a, C::Connect(connect("a").keepalive(5))),
        await_connack(a),
        open(b),
        Step::Advance(20_000),
        Step::Quiet,
        Step::Stats,
        Step::Advance(60_000),
        Step::Quiet,
        Step::Stats
    ]);
    let st = stats_oracle();
    s.oracle = Arc::new(move |r, bad| {
        let mut v = vec![];
        st(r, &mut v);
        bad.extend(v.into_iter().filter(|m| m.contains("statistics") || m.contains("HARNESS")));
    });
    out.push(s);
    // writes that fail, or get stuck for good
    for room in [None, Some(0usize), Some(1), Some(4), Some(9), Some(40)] {
        for n in [1u16, 2, 5] {
            let mut s = Scenario::new(format!("failing writes, room {room:?}, {n} messages"));
            let (v, p, b) = (s.conn(), s.conn(), s.conn());
            s.actor(script![
                Step::Quiet,
                Step::Stats,
                branch(vec![join(v, "v"), pjoin(v, "v")]),
                subd(v, 1, &[("t", 2)]),
                join(p, "p"),
                window(v, room),
                branch(vec![
                    script![],
                    script![send(v, C::Ping)],
                    script![sends(v, &[sub(2, &[("u", 1)]), publ("t", 2, 3, "own"), C::Ping])],
                ]),
                sends(p, &(0..n).map(|i| publ("t", (i % 3) as u8, i + 1, "message")).collect::<Vec<_>>()),
                branch(vec![script![], script![Step::Quiet, Step::Stats]]),
                branch(vec![script![gone(v)], script![reset(v)], join(b, "v"), script![eof(v)]]),
                sends(p, &(0..n).map(|i| publ("t", (i % 3) as u8, i + 10, "more")).collect::<Vec<_>>()),
                Step::Quiet,
                Step::Stats
            ]);
            s.oracle = stats_oracle_for(false);
            s.budget = if thorough { 1 } else { 0 };
            s.parts = if thorough { 8 } else { 1 };
            vary(s, out);
        }
    }
    // bytes in pieces, partial writes
    for chunk in [0usize, 1, 3] {
        let mut s = Scenario::new(format!("pieces, writes of {chunk}"));
        s.write_chunk = chunk;
        let (a, b) = (s.conn(), s.conn());
        let bytes: Vec<u8> = [conn("a"), sub(1, &[("t", 1)]), publ("t", 1, 2, "x"), C::Ping, pub0("t", &"y".repeat(300))].iter().flat_map(|p| p.enc()).collect();
        let mut v = script![Step::Quiet, Step::Stats, join(b, "b"), subd(b, 1, &[("#", 2)]), open(a)];
        for ch in bytes.chunks(7) {
            v.push(raw(a, ch.to_vec()));
            v.push(Step::Quiet);
        }
        v.push(Step::Stats);
        s.actor(v);
        fin(s, out);
    }
    // sizes
    for n in [0usize, 120, 127, 128, 8190, 16380, 16384, 100_000, 2_097_152] {
        let mut s = Scenario::new(format!("size {n}"));
        s.spin = 100_000;
        let (r, p) = (s.conn(), s.conn());
        s.actor(script![Step::Quiet, Step::Stats, join(r, "r"), subd(r, 1, &[("t", 1)]), join(p, "p"), send(p, publ("t", 1, 1, &"z".repeat(n))), Step::Quiet, Step::Stats]);
        fin(s, out);
    }
    // as many packets as do not fit into 16 bits
    for (nm, p) in [("PINGREQ", C::Ping), ("PUBLISH", pub0("t", "")), ("PUBREL", C::PubRel(3))] {
        let mut s = Scenario::new(format!("70,000 {nm}"));
        s.spin = 400_000;
        s.max_steps = 5_000_000;
        s.cost[K::Early as usize] = OFF;
        let c = s.conn();
        let mut v = script![Step::Quiet, Step::Stats, join(c, "c"), subd(c, 1, &[("t", 0)])];
        let ps = vec![p; 1000];
        for _ in 0..70 {
            v.push(sends(c, &ps));
            v.push(Step::Quiet);
        }
        v.push(Step::Stats);
        s.actor(v);
        fin(s, out);
    }
    // more deliveries than there are packet ids
    for q in [1u8, 2] {
        let mut s = Scenario::new(format!("66,000 deliveries, QoS {q}"));
        s.autoack = true;
        s.spin = 400_000;
        s.max_steps = 9_000_000;
        s.cost[K::Early as usize] = OFF;
        let (c, p) = (s.conn(), s.conn());
        let mut v = script![Step::Quiet, Step::Stats, join(c, "c"), subd(c, 1, &[("t", q)]), join(p, "p")];
        let ps = (1..=1000).flat_map(|i| [publ("t", q, i, ""), if q == 2 { C::PubRel(i) } else { C::Ping }]).collect::<Vec<_>>();
        for k in 0..66 {
            v.push(sends(p, &ps));
            v.push(Step::Quiet);
            if k > 63 {
                v.push(Step::Stats);
            }
        }
        s.actor(v);
        fin(s, out);
    }
    // many
    for n in [100usize, 300] {
        let mut s = Scenario::new(format!("{n} clients and messages"));
        s.spin = 100_000;
        let mut v = script![Step::Quiet, Step::Stats];
        let mut cs = vec![];
        for i in 0..n {
            let c = s.conn();
            cs.push(c);
            v.extend(join(c, &format!("c{i}")));
            if i % 10 == 0 {
                v.extend(subd(c, 1, &[("t", 1)]));
            }
        }
        v.push(sends(cs[0], &(0..n).map(|i| publ("t", (i % 3) as u8, i as u16 + 1, &format!("{i}"))).collect::<Vec<_>>()));
        v.push(Step::Quiet);
        v.push(Step::Stats);
        for (i, c) in cs.iter().enumerate() {
            v.push(match i % 4 {
                0 => eof(*c),
                1 => send(*c, C::Disconnect),
                2 => reset(*c),
                _ => raw(*c, vec![0xff, 0]),
            });
        }
        v.push(Step::Quiet);
        v.push(Step::Stats);
        s.actor(v);
        fin(s, out);
    }
    // schedules
    let mut s = Scenario::new("schedules");
    let (a, b) = (s.conn(), s.conn());
    s.cost[K::Write as usize] = 1;
    let x = s.conn();
    let _ = x;
    s.actor(script![Step::Quiet, Step::Stats, join(a, "a"), sends(a, &[sub(1, &[("t", 1)]), publ("t", 1, 2, "a1"), C::Ping])]);
    s.actor(script![after(0, 2), join(b, "b"), sends(b, &[sub(1, &[("t", 0)]), pub0("t", "b1")]), eof(b)]);
    s.actor(script![after_actors(2), Step::Quiet, Step::Stats]);
    s.budget = if thorough { 2 } else { 1 };
    s.parts = 16;
    s.oracle = stats_oracle();
    vary(s, out);
}

fn ends(c: usize) -> Vec<Vec<Step>> {
    vec![
        script![],
        script![send(c, C::Disconnect)],
        script![eof(c)],
        script![gone(c)],
        script![reset(c)],
        script![Step::Reset(c, std::io::ErrorKind::TimedOut)],
        script![raw(c, vec![0xf0, 0])],
        script![raw(c, vec![0x30, 1, 0])],
        script![send(c, conn("again"))],
        script![raw(c, vec![0x30, 0x80]), eof(c)],
        script![send(c, C::Raw(vec![0x82, 2, 0, 1]))],
    ]
}
