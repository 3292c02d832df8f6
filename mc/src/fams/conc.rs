//! Order and barriers: C05, C06.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::scen::*;
use crate::script;
use crate::Tier;

pub fn c05(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let b2 = if thorough { 3 } else { 2 };
    // two publishers, one reader
    let mut s = Scenario::new("two publishers");
    let (a, b, r) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("t", 0)])]);
    s.actor(script![after(0, 5), join(a, "a"), sends(a, &[pub0("t", "a1"), pub0("t", "a2")]), send(a, pub0("t", "a3"))]);
    s.actor(script![after(0, 5), join(b, "b"), send(b, pub0("t", "b1")), send(b, pub0("t", "b2"))]);
    s.budget = b2 - 1;
    s.parts = if s.budget > 1 { 16 } else { 2 };
    vary(s.std(), out);
    // one publisher, two readers of which one joins late; everything pipelined
    let mut s = Scenario::new("pipelined");
    let (a, r) = (s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("#", 1)])]);
    s.actor(script![
        after(0, 5),
        open(a),
        sends(a, &[conn("a"), pub0("t", "1"), publ("t", 1, 1, "2"), publ("u", 2, 2, "3"), pub0("t", "4"), C::PubRel(2), publ("t", 1, 3, "5")])
    ]);
    s.cost[K::Write as usize] = 1;
    s.budget = b2;
    s.parts = 16;
    let mut two = vec![];
    vary(s.std(), &mut two);
    if !thorough {
        two.truncate(2);
    }
    out.extend(two);
    // a reader that subscribes, pings and publishes while messages come
    let mut s = Scenario::new("busy reader");
    let (a, r) = (s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("t", 1)]), send(r, C::Ping), send(r, sub(2, &[("u", 0)])), send(r, publ("t", 1, 7, "own"))]);
    s.actor(script![after(0, 5), join(a, "a"), send(a, pub0("t", "1")), send(a, pub0("t", "2")), send(a, publ("t", 1, 1, "3"))]);
    s.cost[K::Write as usize] = 1;
    s.budget = b2 - 1;
    s.parts = if s.budget > 1 { 16 } else { 2 };
    vary(s.std(), out);
    // the clients act in any order (all orders of the clients' steps, broker idle in between)
    let mut s = Scenario::new("all orders of clients");
    let (a, b, r) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("t", 2)]), send(r, C::Ping)]);
    s.actor(script![join(a, "a"), send(a, publ("t", 2, 1, "a1")), send(a, C::PubRel(1)), send(a, publ("t", 1, 2, "a2"))]);
    s.actor(script![join(b, "b"), send(b, pub0("t", "b1")), send(b, publ("t", 1, 1, "b2"))]);
    s.cost = [OFF, OFF, 0, OFF, OFF, OFF, 0];
    s.parts = 16;
    out.push(s.std());
    // bursts across every queue size
    for n in [3usize, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 255, 256, 257, 300, 1000, 2500] {
        if !thorough && n > 1500 {
            continue;
        }
        for (qp, qs) in [(0u8, 0u8), (1, 1), (2, 2)] {
            for split in [1usize, 7, usize::MAX] {
                if !thorough && split == 1 && n > 300 {
                    continue;
                }
                let mut s = Scenario::new(format!("burst of {n} q{qp} q{qs} in {split}"));
                s.spin = 50_000;
                s.max_steps = 3_000_000;
                let (a, b, r, r2) = (s.conn(), s.conn(), s.conn(), s.conn());
                let mk = |c: &str, i: usize| publ("t", qp, i as u16 + 1, &format!("{c}{i}"));
                let mut v = script![join(r, "r"), subd(r, 1, &[("t", qs)]), join(r2, "r2"), subd(r2, 1, &[("#", 1)]), join(a, "a"), join(b, "b")];
                let all: Vec<usize> = (0..n).collect();
                for ch in all.chunks(split.min(n)) {
                    v.push(sends(a, &ch.iter().map(|i| mk("a", *i)).collect::<Vec<_>>()));
                    v.push(sends(b, &ch.iter().map(|i| mk("b", *i)).collect::<Vec<_>>()));
                }
                s.actor(v);
                s.eager = n % 2 == 0;
                s.policy = if n % 3 == 0 { Policy::Lifo } else { Policy::Fifo };
                s.cost[K::Early as usize] = OFF;
                out.push(s.std());
            }
        }
    }
    // topics, QoS and sizes mixed, some messages equal; readers that take their time
    for n in [30usize, 150, 400] {
        for slow in [0usize, 1, 2, 3] {
            for topics in [1usize, 2, 5] {
                let mut s = Scenario::new(format!("mixed burst of {n} over {topics} topics, slow={slow}"));
                s.spin = 100_000;
                s.max_steps = 3_000_000;
                let (a, b, r, r2) = (s.conn(), s.conn(), s.conn(), s.conn());
                let mk = |c: &str, i: usize| publ(&format!("t{}", i % topics), (i * 7 / 3 % 3) as u8, i as u16 + 1, &format!("{c}{}{}", i / 3, "z".repeat(i / 3 % 5 * 40)));
                let mut v = script![join(r, "r"), subd(r, 1, &[("#", 2)]), join(r2, "r2"), subd(r2, 1, &[("t0", 1), ("+", 0)]), join(a, "a"), join(b, "b")];
                if slow > 0 {
                    v.push(window(r, Some(0)));
                }
                for ch in (0..n).collect::<Vec<_>>().chunks([n, 1, 20, 45][slow]) {
                    v.push(sends(a, &ch.iter().map(|i| mk("a", *i)).collect::<Vec<_>>()));
                    v.push(sends(b, &ch.iter().map(|i| mk("b", *i)).collect::<Vec<_>>()));
                    // releases what was exactly once
                    v.push(Step::Quiet);
                    v.push(sends(a, &ch.iter().map(|i| C::PubRel(*i as u16 + 1)).collect::<Vec<_>>()));
                    if slow > 0 {
                        v.push(window(r, Some([0, 50, 333, 1][slow])));
                        v.push(Step::Quiet);
                    }
                }
                v.push(window(r, None));
                v.push(Step::Quiet);
                s.actor(v);
                s.eager = slow == 2;
                s.cost[K::Early as usize] = OFF;
                out.push(s.std());
            }
        }
    }
    // a reader that falls far behind, in steps, and catches up
    for behind in if thorough { vec![500usize, 3000, 9500] } else { vec![500, 3000] } {
        let mut s = Scenario::new(format!("reader {behind} behind"));
        s.spin = 400_000;
        s.max_steps = 5_000_000;
        let (a, r, o) = (s.conn(), s.conn(), s.conn());
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", 1)]), join(o, "o"), subd(o, 1, &[("#", 0)]), join(a, "a")];
        for round in 0..3 {
            v.push(window(r, Some(round * 7)));
            for k in 0..behind / 50 {
                v.push(sends(a, &(0..50).map(|i| publ("t", (i % 2) as u8, i as u16 + 1, &format!("{round}.{k}.{i}"))).collect::<Vec<_>>()));
                v.push(Step::Quiet);
            }
            for w in [1usize, 100, 5000] {
                v.push(window(r, Some(w)));
                v.push(Step::Quiet);
            }
            v.push(window(r, None));
            v.push(Step::Quiet);
        }
        s.actor(v);
        out.push(s.std());
    }
    // mixed sizes: small after large, with partial writes
    for chunk in [0usize, 1000, 13] {
        let mut s = Scenario::new(format!("sizes mixed, writes of {chunk}"));
        s.write_chunk = chunk;
        s.spin = 50_000;
        let (a, r) = (s.conn(), s.conn());
        let mut ps = vec![];
        for i in 0..12usize {
            ps.push(C::Publish {
                dup: false,
                qos: (i % 3) as u8,
                retain: false,
                topic: "t".into(),
                pid: i as u16 + 1,
                payload: format!("{i}.").into_bytes().into_iter().chain(std::iter::repeat(b'.').take([0, 9000, 10, 130][i % 4])).collect(),
            });
        }
        s.actor(script![join(r, "r"), subd(r, 1, &[("t", 2)]), join(a, "a"), sends(a, &ps)]);
        out.push(s.std());
    }
    // many readers
    let mut s = Scenario::new("many readers");
    s.spin = 50_000;
    let a = s.conn();
    let mut v = join(a, "a");
    for i in 0..40 {
        let r = s.conn();
        v.extend(join(r, &format!("r{i}")));
        v.extend(subd(r, 1, &[(["t", "+", "#"][i % 3], (i % 2) as u8)]));
    }
    v.push(sends(a, &(0..60).map(|i| publ("t", 1, i + 1, &format!("{i}"))).collect::<Vec<_>>()));
    s.actor(v);
    out.push(s.std());
}

pub fn c06(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let bud = |full: u32| if thorough { full + 1 } else { full };
    // a publisher that only knows of the SUBACK (through another channel)
    for f in ["t", "+", "#"] {
        let mut s = Scenario::new(format!("subscribe {f}, then publish"));
        let (r, p) = (s.conn(), s.conn());
        s.actor(script![join(r, "r"), subd(r, 1, &[(f, 1)]), unsubd(r, 2, &[f])]);
        s.actor(script![join(p, "p"), send(p, pub0("t", "early")), wait("the SUBACK", move |o| o.count(r, |x| matches!(x, S::SubAck(..))) > 0), send(p, publ("t", 1, 1, "between")), wait("the UNSUBACK", move |o| o.count(r, |x| matches!(x, S::UnsubAck(_))) > 0), send(p, publ("t", 1, 2, "late"))]);
        s.budget = bud(1);
        s.parts = if s.budget > 1 { 16 } else { 4 };
        vary(s.std(), out);
    }
    // subscribe, unsubscribe and subscribe again, pipelined, against a stream of messages
    let mut s = Scenario::new("pipelined requests against a stream");
    let (r, p) = (s.conn(), s.conn());
    s.actor(script![join(p, "p"), send(p, pub0("t", "1")), send(p, pub0("t", "2")), sends(p, &[pub0("t", "3"), pub0("t", "4")])]);
    s.actor(script![join(r, "r"), sends(r, &[sub(1, &[("t", 1)]), unsub(2, &["t"]), sub(3, &[("t", 0)])]), await_n(r, suback(3, &[0]), 1), Step::Quiet, send(p, pub0("t", "5"))]);
    s.budget = bud(1);
    s.parts = if s.budget > 1 { 16 } else { 4 };
    vary(s.std(), out);
    // the same connection publishes right behind its own requests
    let mut s = Scenario::new("own messages");
    let (r, q) = (s.conn(), s.conn());
    s.actor(script![join(r, "r"), sends(r, &[pub0("t", "0"), sub(1, &[("t", 1)]), publ("t", 1, 9, "1"), unsub(2, &["t"]), publ("t", 1, 10, "2"), sub(3, &[("#", 2)]), pub0("t", "3")])]);
    s.actor(script![join(q, "q"), sends(q, &[sub(1, &[("t", 0)]), publ("t", 1, 9, "q1")])]);
    s.budget = bud(1);
    s.parts = if s.budget > 1 { 16 } else { 4 };
    vary(s.std(), out);
    // two subscribers change overlapping filters
    let mut s = Scenario::new("two subscribers");
    let (a, b, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(a, "a"), subd(a, 1, &[("t", 1), ("#", 0)]), unsubd(a, 2, &["t"]), send(a, C::Ping)]);
    s.actor(script![join(b, "b"), subd(b, 1, &[("t", 2)]), unsubd(b, 2, &["t"]), subd(b, 3, &[("t", 0)])]);
    s.actor(script![join(p, "p"), send(p, publ("t", 2, 1, "1")), send(p, publ("t", 1, 2, "2"))]);
    s.budget = bud(1);
    s.parts = if s.budget > 1 { 16 } else { 4 };
    vary(s.std(), out);
    // all orders of the clients' steps
    let mut s = Scenario::new("all orders of clients");
    let (a, b, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(a, "a"), send(a, sub(1, &[("t", 1)])), send(a, unsub(2, &["t"])), send(a, sub(3, &[("t", 2)]))]);
    s.actor(script![join(b, "b"), send(b, sub(1, &[("t", 0), ("#", 1)])), send(b, unsub(2, &["#"]))]);
    s.actor(script![join(p, "p"), send(p, pub0("t", "1")), send(p, publ("t", 2, 2, "2"))]);
    s.cost = [OFF, OFF, 0, OFF, OFF, OFF, 0];
    s.parts = 16;
    out.push(s.std());
    // requests behind a burst: the barrier holds when queues are full
    for n in [10usize, 99, 100, 101, 150, 300] {
        for eager in [false, true] {
            for pol in [Policy::Fifo, Policy::Lifo] {
                let mut s = Scenario::new(format!("burst of {n} around requests eager={eager} {pol:?}"));
                s.spin = 50_000;
                s.policy = pol;
                s.eager = eager;
                s.cost[K::Early as usize] = OFF;
                let (r, q, p) = (s.conn(), s.conn(), s.conn());
                s.actor(script![
                    join(r, "r"),
                    join(q, "q"),
                    subd(q, 1, &[("#", 0)]),
                    join(p, "p"),
                    sends(p, &(0..n).map(|i| pub0("t", &format!("a{i}"))).collect::<Vec<_>>()),
                    subd(r, 1, &[("t", 1)]),
                    sends(p, &(0..n).map(|i| publ("t", 1, i as u16 + 1, &format!("b{i}"))).collect::<Vec<_>>()),
                    unsubd(r, 2, &["t"]),
                    sends(p, &(0..n).map(|i| pub0("t", &format!("c{i}"))).collect::<Vec<_>>()),
                    Step::Quiet
                ]);
                out.push(s.std());
            }
        }
    }
    // a request right before the end of the connection
    let mut s = Scenario::new("requests of a persistent session before its connection ends");
    let (a, b, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![
        pjoin(a, "a"),
        branch(vec![
            script![sends(a, &[sub(1, &[("t", 1)]), C::Disconnect])],
            script![sends(a, &[sub(1, &[("t", 1), ("u", 0)]), unsub(2, &["t"])]), eof(a)],
            script![sends(a, &[sub(1, &[("t", 1)]), unsub(2, &["t"]), C::Disconnect])],
        ]),
        Step::Quiet,
        pjoin(b, "a"),
        join(p, "p"),
        send(p, pub0("t", "1")),
        send(p, pub0("u", "2")),
    ]);
    s.budget = 1;
    s.parts = 4;
    vary(s.std(), out);
}

/// What is sent in answer to a message arrives after it, wherever both arrive.
pub fn c22(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let b1 = if thorough { 2 } else { 1 };
    // a message, its answer, an observer of both
    for q in 0..9u8 {
        let (q1, q2) = (q % 3, q / 3);
        for (k, fs) in [vec![("#", 2u8)], vec![("t", 0), ("u", 2)], vec![("+", 1), ("u", 0), ("u/#", 2)], vec![("u", 1), ("t/#", 0)]].into_iter().enumerate() {
            let mut s = Scenario::new(format!("answer q{q1} q{q2} observed by {k}"));
            let (a, b, o) = (s.conn(), s.conn(), s.conn());
            s.actor(script![join(o, "o"), subd(o, 1, &fs)]);
            s.actor(script![join(b, "b"), subd(b, 1, &[("t", q1)]), await_pubs(b, 1), send(b, publ("u", q2, 7, "answer")), await_pubs(o, 2)]);
            s.actor(script![after_actors(1), after(1, 5), join(a, "a"), send(a, publ("t", q1, 7, "message"))]);
            s.budget = if k == (q as usize) % 4 || thorough { b1 } else { 0 };
            s.parts = if s.budget > 1 { 16 } else { 1 };
            vary(s.std(), out);
        }
    }
    // a message handed on from one to the next, at any QoS, with observers that are slow or come late
    let n = if thorough { 12 } else { 6 };
    for q in 0..3u8 {
        for slow in [None, Some(0usize), Some(5), Some(40)] {
            let mut s = Scenario::new(format!("handed on q{q}, slow={slow:?}"));
            let (a, o, o2) = (s.conn(), s.conn(), s.conn());
            let mut v = script![join(o, "o"), subd(o, 1, &[("#", 2)]), join(o2, "o2"), subd(o2, 1, &[("t/+", 1), ("t/3", 0)]), join(a, "a")];
            let hop: Vec<usize> = (0..n).map(|_| s.conn()).collect();
            for (i, h) in hop.iter().enumerate() {
                v.extend(join(*h, &format!("h{i}")));
                v.extend(subd(*h, 1, &[(&format!("t/{i}"), q)]));
            }
            if slow.is_some() {
                v.push(window(o, slow));
            }
            v.push(send(a, publ("t/0", q, 1, "m")));
            for (i, h) in hop.iter().enumerate() {
                v.push(await_pubs(*h, 1));
                // the answer and something else, at different QoS
                let q2 = (q + i as u8) % 3;
                v.push(sends(*h, &[publ(&format!("t/{}", i + 1), q2, 3, &format!("m{i}")), publ("x", (q2 + 1) % 3, 4, &format!("x{i}"))]));
            }
            v.extend([Step::Quiet, window(o, None), Step::Quiet]);
            s.actor(v);
            s.parts = 1;
            let mut four = vec![];
            vary(s.std(), &mut four);
            for mut s in four {
                if thorough {
                    s.budget = 1;
                    s.parts = 4;
                }
                out.push(s);
            }
        }
    }
    // question and answer, many times; the observer is as far behind as can be
    for behind in if thorough { vec![0usize, 1, 98, 99, 100, 101, 102, 150, 199, 200, 201, 250, 300, 1000, 5000, 9000] } else { vec![0, 98, 99, 100, 101, 102, 200, 201, 300, 1000, 5000] } {
        for q in 0..3u8 {
            let mut s = Scenario::new(format!("talk q{q}, observer {behind} behind"));
            s.spin = 300_000;
            s.max_steps = 3_000_000;
            s.cost[K::Early as usize] = OFF;
            let (a, b, o, o2) = (s.conn(), s.conn(), s.conn(), s.conn());
            let mut v = script![
                join(o, "o"), subd(o, 1, &[("#", 2)]), join(o2, "o2"), subd(o2, 1, &[("q", 0), ("r", 2)]), join(a, "a"), subd(a, 1, &[("r", q)]), join(b, "b"), subd(b, 1, &[("q", 2)])
            ];
            v.push(window(o, Some(0)));
            for k in 0..behind.div_ceil(80) {
                v.push(sends(a, &(0..80.min(behind - k * 80)).map(|i| pub0("fill", &format!("{k}.{i}"))).collect::<Vec<_>>()));
                v.push(Step::Quiet);
            }
            for k in 0..if thorough { 40 } else { 12 } {
                v.push(send(a, publ("q", (q + k as u8) % 3, k as u16 + 1, &format!("question {k}"))));
                v.push(await_pubs(b, k + 1));
                v.push(send(b, publ("r", (k % 3) as u8, k as u16 + 1, &format!("answer {k}"))));
                v.push(await_pubs(a, k + 1));
                v.push(send(a, C::PubRel(k as u16 + 1)));
                if k == 5 {
                    v.push(window(o, Some(200)));
                }
            }
            v.extend([window(o, None), Step::Quiet]);
            s.actor(v);
            let mut four = vec![];
            vary(s.std(), &mut four);
            out.extend(four.into_iter().take(if thorough { 4 } else { 2 }));
        }
    }
    // anyone of many answers; the others are sent both in this order
    for n in [2usize, 17, 60, 300] {
        let mut who = vec![0, n / 2, n - 1];
        who.dedup();
        for who in who {
            let mut s = Scenario::new(format!("{n} subscribers, {who} answers"));
            s.spin = 300_000;
            s.hash_seed = (n + who) as u64;
            let a = s.conn();
            let mut v = join(a, "a");
            let first = s.conns;
            for i in 0..n {
                let c = s.conn();
                v.extend(join(c, &format!("r{i}")));
                v.extend(subd(c, 1, &[("t", (i % 3) as u8), ("u/+", (i / 3 % 3) as u8)]));
            }
            let w = first + who;
            for k in 0..4usize {
                v.push(send(a, publ("t", (k % 3) as u8, k as u16 + 1, &format!("m{k}"))));
                v.push(await_pubs(w, 2 * k + 1));
                v.push(send(w, publ(&format!("u/{k}"), (2 - k % 3) as u8 % 3, k as u16 + 1, &format!("a{k}"))));
                if k % 2 == 0 {
                    v.push(Step::Quiet);
                } else {
                    v.push(await_pubs(w, 2 * k + 2));
                }
            }
            s.actor(v);
            let mut four = vec![];
            vary(s.std(), &mut four);
            out.extend(four);
        }
    }
    // large and small
    for (l1, l2) in [(0usize, 100_000), (100_000, 0), (9_000, 20), (3_000_000, 1)] {
        for chunk in [0usize, 700] {
            let mut s = Scenario::new(format!("answer of {l2} bytes to {l1}, writes of {chunk}"));
            s.spin = 300_000;
            s.max_steps = 3_000_000;
            let (a, b, o) = (s.conn(), s.conn(), s.conn());
            let fill = |n: usize, s: &str| format!("{s}{}", "f".repeat(n));
            let mut v = script![join(o, "o"), subd(o, 1, &[("#", 1)]), join(b, "b"), subd(b, 1, &[("t", 1)]), join(a, "a"), send(a, publ("t", 1, 1, &fill(l1, "m")))];
            if chunk > 0 {
                v.insert(v.len() - 1, window(o, Some(chunk)));
            }
            v.extend(script![await_pubs(b, 1), send(b, pub0("u", &fill(l2, "a"))), send(b, publ("u", 2, 1, "b")), Step::Quiet, window(o, None), Step::Quiet]);
            s.actor(v);
            vary(s.std(), out);
        }
    }
    // the observer comes and goes between message and answer, its session stays
    for (nm, clean) in [("clean", true), ("kept", false)] {
        for end in 0..3 {
            let mut s = Scenario::new(format!("observer returns, {nm}, end {end}"));
            let (a, b, o, o2) = (s.conn(), s.conn(), s.conn(), s.conn());
            let cn = |c: usize| send(c, C::Connect(Connect { clean, ..connect("o") }));
            s.actor(script![open(o), cn(o), await_connack(o), subd(o, 1, &[("#", 1)]), after(1, 6), match end { 0 => send(o, C::Disconnect), 1 => reset(o), _ => Step::Quiet }, open(o2), cn(o2), await_connack(o2), subd(o2, 1, &[("#", 1)])]);
            s.actor(script![join(b, "b"), subd(b, 1, &[("t", 1)]), after(0, 5), await_pubs(b, 1), send(b, publ("u", 1, 7, "answer")), send(b, publ("u", 0, 8, "more"))]);
            s.actor(script![after(1, 6), join(a, "a"), send(a, publ("t", 1, 7, "message"))]);
            s.actor(script![after_actors(3), Step::Quiet]);
            s.budget = b1;
            s.parts = if thorough { 16 } else { 2 };
            vary(s.std(), out);
        }
    }
}
