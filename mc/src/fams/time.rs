//! Keep-alive: C16.

use crate::codec::*;
use crate::engine::*;
use crate::monitor::{monitor, Model, Opt};
use crate::scen::*;
use crate::script;
use crate::Tier;
use std::sync::Arc;

/// Slack for the resolution of timers, and for the size of the steps in which time passes (ms).
const SLACK: u64 = 5;

fn keepalive_oracle(step: u64) -> Oracle {
    Arc::new(move |r, bad| {
        monitor(r, Opt { time: true, ..Opt::default() }, bad);
        let m = Model::new(r);
        let at = |i: usize| r.log.get(i).map_or(r.obs.ms, |e| e.0);
        for (c, x) in m.conns.iter().enumerate() {
            let Some(op) = x.opened else { continue };
            let k = match x.items.first().map(|i| &i.p) {
                Some(Ok(C::Connect(k))) if x.accepted => Some(k.keepalive as u64 * 1000),
                _ => None,
            };
            // what comes while the client does not read may wait unseen
            let noticed = |i: &usize| !x.stalls.iter().any(|s| s.0 < *i && *i < s.1);
            let fatal = x.fatal.map(|f| x.items[f].lo).filter(noticed);
            let any = [x.fatal.map(|f| x.items[f].lo), x.eof, x.loss, x.superseded, x.may_close].into_iter().flatten().min();
            let other = [fatal, x.eof.filter(noticed), x.loss, x.superseded, x.may_close].into_iter().flatten().min();
            let end = x.dropped.or(other).map_or(r.obs.ms, at);
            match k {
                None => {
                    // never connected
                    let limit = at(op) + 60_000;
                    if other.is_none() && end > limit + step + SLACK {
                        bad.push(format!("c{c} is open {} ms after it was opened, without CONNECT", end - at(op)));
                    }
                }
                Some(k) => {
                    let mut ts: Vec<u64> = x
                        .items
                        .iter()
                        .filter(|i| x.dropped.map_or(true, |d| i.lo < d))
                        // what waited until the client read again arrives then, as far as the broker can know
                        .map(|i| x.stalls.iter().find(|s| s.0 < i.lo && i.lo < s.1 && s.1 < usize::MAX).map_or(i.lo, |s| s.1))
                        .map(at)
                        .collect();
                    ts.push(end);
                    for w in ts.windows(2) {
                        let gap = w[1] - w[0];
                        if k > 0 && other.map_or(true, |o| at(o) > w[0]) && gap > k + k / 2 + step + SLACK && other.map_or(true, |o| at(o) - w[0] > k + k / 2 + step + SLACK) {
                            bad.push(format!("c{c}: nothing complete arrives for {gap} ms (keep-alive {k} ms), but the connection stays open"));
                        }
                    }
                    if let Some(d) = x.dropped {
                        if any.map_or(true, |o| d < o) {
                            // what arrives while the client does not read may wait unseen
                            let unseen = |lo: usize| x.stalls.iter().any(|s| s.0 < lo && lo < s.1 && d < s.1);
                            let seen = x.items.iter().filter(|i| i.lo < d && !unseen(i.lo)).map(|i| at(i.lo)).last();
                            let last = seen.unwrap_or(ts[0]);
                            if k == 0 {
                                bad.push(format!("c{c} is closed for inactivity although its keep-alive is 0"));
                            } else if at(d) - last < k {
                                bad.push(format!("c{c} is closed {} ms after its last packet (keep-alive {k} ms)", at(d) - last));
                            }
                        }
                    }
                }
            }
        }
    })
}

/// Time passes in steps.
fn pass(ms: u64, step: u64) -> Vec<Step> {
    let mut v = vec![];
    let mut left = ms;
    while left > 0 {
        let d = left.min(step);
        v.push(Step::Advance(d));
        v.push(Step::Quiet);
        left -= d;
    }
    v
}

/// Clients that do not read: the same limits hold while the broker cannot write.
fn unread(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let asks: Vec<(&str, Vec<C>)> = vec![
        ("ping", vec![C::Ping]),
        ("pub1", vec![publ("t", 1, 7, "1")]),
        ("pub2", vec![publ("t", 2, 7, "1")]),
        ("sub", vec![sub(7, &[("s", 0)])]),
        ("unsub", vec![unsub(7, &["s"])]),
        ("pubrel", vec![C::PubRel(7)]),
        ("pubrec", vec![C::PubRec(7)]),
        ("two", vec![C::Ping, publ("t", 1, 7, "1")]),
        ("many", (0..40).map(|i| publ("t", 1, i + 1, &format!("{i}"))).collect()),
    ];
    for &ka in if thorough { &[1u16, 2, 3, 10, 60, 61, 600, 3600, 43_691, 65_535][..] } else { &[1u16, 2, 60, 600, 65_535][..] } {
        let k = ka as u64 * 1000;
        let step = (k / 20).max(50);
        // the broker is stuck with an answer
        for room in if thorough { &[0usize, 1, 2, 3, 5][..] } else { &[0usize, 1, 3][..] } {
            let mut s = Scenario::new(format!("keep-alive {ka}: answers not read, room for {room}"));
            s.spin = 20_000;
            let (x, y) = (s.conn(), s.conn());
            let mut opts = vec![];
            for (_, a) in &asks {
                for late in [0, k / 2, k - 10] {
                    opts.push(script![pass(late, step), sends(x, a), pass(2 * k, step)]);
                }
                // it leaves
                opts.push(script![sends(x, a), pass(k / 2, step), send(x, C::Disconnect), pass(2 * k, step)]);
                opts.push(script![sends(x, a), pass(k / 2, step), eof(x), pass(2 * k, step)]);
                opts.push(script![sends(x, a), pass(k / 2, step), gone(x), pass(step, step)]);
                // it asks on, or reads again
                opts.push(script![sends(x, a), pass(k, step), send(x, C::Ping), pass(k, step), send(x, C::Ping), pass(2 * k, step)]);
                opts.push(script![sends(x, a), pass(k, step), send(x, C::Ping), window(x, None), Step::Quiet, pass(k, step), send(x, C::Ping), pass(2 * k, step)]);
                opts.push(script![sends(x, a), pass(k + k / 2 - 2 * step, step), window(x, None), Step::Quiet, pass(k, step)]);
            }
            s.actor(script![
                join(y, "y"),
                open(x),
                send(x, C::Connect(connect("x").keepalive(ka))),
                await_connack(x),
                window(x, Some(*room)),
                branch(opts),
                send(y, C::Ping),
                await_n(y, S::PingResp, 1),
            ]);
            s.oracle = keepalive_oracle(step);
            s.parts = 4;
            out.push(s);
        }
        // the broker is stuck with a delivery
        for q in 0..3u8 {
            let mut s = Scenario::new(format!("keep-alive {ka}: deliveries at QoS {q} not read"));
            s.autoack = false;
            s.spin = 20_000;
            let (x, y) = (s.conn(), s.conn());
            let mut opts = vec![];
            for room in [0usize, 1, 4, 7, 8, 20] {
                for gap in [0, k / 2, k - 10, k + k / 4] {
                    let mut v = script![window(x, Some(room)), pass(gap, step)];
                    for i in 0..5u16 {
                        v.push(send(y, publ("t", q, i + 1, &format!("{i}"))));
                    }
                    v.extend(pass(2 * k, step));
                    opts.push(v);
                }
            }
            s.actor(script![
                join(y, "y"),
                open(x),
                send(x, C::Connect(connect("x").keepalive(ka))),
                await_connack(x),
                subd(x, 1, &[("t", q)]),
                branch(opts),
                send(y, C::Ping),
                await_n(y, S::PingResp, 1),
            ]);
            s.oracle = keepalive_oracle(step);
            s.parts = 4;
            out.push(s);
        }
        // nor is the CONNACK
        let mut s = Scenario::new(format!("keep-alive {ka}: CONNACK not read"));
        s.spin = 20_000;
        let (x, y) = (s.conn(), s.conn());
        let opts = (0..4)
            .map(|room| {
                script![
                    open(x),
                    window(x, Some(room)),
                    send(x, C::Connect(connect("x").keepalive(ka))),
                    pass(2 * k, step),
                ]
            })
            .collect();
        s.actor(script![join(y, "y"), branch(opts), send(y, C::Ping), await_n(y, S::PingResp, 1)]);
        s.oracle = keepalive_oracle(step);
        out.push(s);
    }
    // a refusal that is not read
    let mut s = Scenario::new("refusal not read");
    s.spin = 20_000;
    let (x, y) = (s.conn(), s.conn());
    let mut opts = vec![];
    for room in 0..4 {
        for c in [C::Connect(Connect { level: 5, ..connect("x") }), C::Connect(Connect { id: "".into(), ..connect("x").persistent() })] {
            opts.push(script![
                open(x),
                window(x, Some(room)),
                pass(5_000, 1000),
                send(x, c),
                pass(54_000, 1000),
                pass(3_000, 100),
                pass(70_000, 1000),
            ]);
        }
    }
    s.actor(script![join(y, "y"), branch(opts), send(y, C::Ping), await_n(y, S::PingResp, 1)]);
    s.oracle = keepalive_oracle(100);
    out.push(s);
    // without keep-alive it may take for ever
    let mut s = Scenario::new("keep-alive 0: not read");
    s.spin = 20_000;
    let (x, y) = (s.conn(), s.conn());
    let mut opts = vec![];
    for room in 0..4 {
        opts.push(script![
            window(x, Some(room)),
            send(x, C::Ping),
            send(x, C::Ping),
            pass(200_000, 10_000),
            window(x, None),
            await_n(x, S::PingResp, 2),
            pass(200_000, 10_000),
        ]);
    }
    s.actor(script![join(y, "y"), open(x), send(x, C::Connect(connect("x").keepalive(0))), await_connack(x), branch(opts)]);
    s.oracle = keepalive_oracle(100);
    out.push(s);
}

fn more(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    // every keep-alive there is (quick: every one up to 300, and those around powers of 2 and 10)
    let all: Vec<u16> = (1..=65_535u16)
        .filter(|k| {
            thorough && k % 13 == 0
                || *k <= 300
                || (0..16).any(|b| (1u32 << b).abs_diff(*k as u32) <= 2 || (65_535u32 * 2 / 3 >> b).abs_diff(*k as u32) <= 1)
                || [999, 1000, 1001, 9_999, 10_000, 65_500, 65_534].contains(k)
        })
        .collect();
    let mut chunks: Vec<Vec<u16>> = vec![];
    for k in all {
        match chunks.last_mut() {
            Some(c) if c.len() < 50 && k as u32 * 2 <= c[0] as u32 * 3 => c.push(k),
            _ => chunks.push(vec![k]),
        }
    }
    for ch in chunks {
        let mut s = Scenario::new(format!("keep-alive {} to {}", ch[0], ch[ch.len() - 1]));
        s.spin = 20_000;
        let (x, y) = (s.conn(), s.conn());
        let opts = ch
            .iter()
            .map(|&ka| {
                let k = ka as u64 * 1000;
                let (d, fine) = (k / 4, k / 40 + 1);
                script![
                    send(x, C::Connect(connect("x").keepalive(ka))),
                    await_connack(x),
                    pass(k, d),
                    send(x, C::Ping),
                    pass(k - 1, d),
                    pass(k / 2 + 1, fine),
                    pass(k, k)
                ]
            })
            .collect();
        s.actor(script![join(y, "y"), open(x), branch(opts)]);
        // as long as the longest step where it matters
        s.oracle = keepalive_oracle(ch[ch.len() - 1] as u64 * 1000 / 40 + 1);
        out.push(s);
    }
    // packets in pieces: a packet counts when it is complete, and never before
    for &ka in if thorough { &[1u16, 2, 7, 60, 65_535][..] } else { &[2u16, 60][..] } {
        let k = ka as u64 * 1000;
        let step = (k / 20).max(50);
        let whole: Vec<C> = vec![C::Ping, publ("t", 1, 7, "0123456789"), sub(9, &[("s", 0)]), C::PubRel(3), pub0("t", &"x".repeat(300))];
        let mut s = Scenario::new(format!("keep-alive {ka}: packets in pieces"));
        s.spin = 20_000;
        let x = s.conn();
        let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
        for i in 0..if thorough { 3 } else { 2 } {
            let mut opts = vec![];
            for p in &whole {
                let b = p.enc();
                let mut cuts = vec![1, 2, 3, b.len() / 2, b.len() - 1];
                cuts.retain(|c| *c > 0 && *c < b.len());
                cuts.dedup();
                for c in cuts {
                    if i > 0 && !thorough && (c + b.len()) % 2 == 0 {
                        continue;
                    }
                    // it gets complete just in time, or too late
                    for (a, z) in [(k / 2, k / 2), (k - 20, 20), (0, k), (k / 2, k), (k, k / 2 + 3 * step)] {
                        opts.push(script![pass(a, step), raw(x, b[..c].to_vec()), pass(z, step), raw(x, b[c..].to_vec()), Step::Quiet]);
                    }
                }
            }
            // the end of one together with the start of the next
            let two: Vec<u8> = [C::Ping.enc(), publ("t", 1, 8, "next").enc()].concat();
            for c in [1usize, 2, 3, 5] {
                opts.push(script![pass(k, step), raw(x, two[..c].to_vec()), pass(k - step, step), raw(x, two[c..].to_vec()), Step::Quiet]);
            }
            v.push(branch(opts));
        }
        v.push(branch(vec![pass(2 * k, step), script![pass(k - 5, step), send(x, C::Ping), pass(2 * k, step)]]));
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        s.parts = 16;
        out.push(s);
    }
    // acknowledging what is delivered is activity
    for q in [1u8, 2] {
        for (nm, end) in [("for good", 0usize), ("until they stop", 1)] {
            let ka = 10u16;
            let mut s = Scenario::new(format!("acknowledgements at QoS {q}, {nm}"));
            s.spin = 20_000;
            let (x, y) = (s.conn(), s.conn());
            let mut v = script![
                open(y),
                send(y, C::Connect(connect("y").keepalive(0))),
                await_connack(y),
                open(x),
                send(x, C::Connect(connect("x").keepalive(ka))),
                await_connack(x),
                subd(x, 1, &[("t", q)])
            ];
            for i in 0..8u16 {
                v.extend(pass(10_000 - 1, 1000));
                v.push(send(y, publ("t", 2, i + 1, &format!("{i}"))));
                v.push(Step::Quiet);
            }
            if end == 1 {
                v.extend(pass(25_000, 500));
            }
            s.actor(v);
            s.oracle = keepalive_oracle(1000);
            out.push(s);
        }
    }
    // each connection of a client has the keep-alive of its own CONNECT
    for (a, b) in [(2u16, 60u16), (60, 2), (0, 3), (3, 0), (5, 5)] {
        let mut s = Scenario::new(format!("keep-alive {a}, then {b}"));
        s.spin = 20_000;
        let (x, y, z) = (s.conn(), s.conn(), s.conn());
        let cn = |id: &str, k: u16, clean| C::Connect(Connect { clean, ..connect(id).keepalive(k) });
        let mut v = script![open(x)];
        v.push(branch(vec![script![send(x, cn("x", a, true))], script![send(x, cn("x", a, false))]]));
        v.push(await_connack(x));
        v.push(branch(vec![script![], pass(900, 300), script![eof(x), Step::Quiet], script![send(x, C::Disconnect), pass(1500, 500)]]));
        v.push(open(z));
        v.push(branch(vec![script![send(z, cn("x", b, true))], script![send(z, cn("x", b, false))], script![send(z, cn("z", b, true))]]));
        v.push(await_connack(z));
        v.push(branch(vec![
            pass(200_000, 500),
            script![pass(b as u64 * 1000, 500), send(z, C::Ping), pass(b as u64 * 1000, 500), send(z, C::Ping), pass(100_000, 500)],
        ]));
        v.extend(script![join(y, "y")]);
        s.actor(v);
        s.oracle = keepalive_oracle(500);
        s.parts = 2;
        out.push(s);
    }
}

pub fn c16(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let kinds: Vec<(&str, fn(u16) -> C)> = vec![
        ("ping", |_| C::Ping),
        ("pub0", |i| pub0("t", &format!("{i}"))),
        ("pub1", |i| publ("t", 1, i + 1, &format!("{i}"))),
        ("pub2", |i| publ("t", 2, i + 1, &format!("{i}"))),
        ("sub", |i| sub(i + 1, &[("s", 0)])),
        ("unsub", |i| unsub(i + 1, &["s"])),
        ("puback", |_| C::PubAck(9)),
        ("pubrec", |_| C::PubRec(9)),
        ("pubrel", |_| C::PubRel(9)),
        ("pubcomp", |_| C::PubComp(9)),
    ];
    for &ka in if thorough { &[1u16, 2, 3, 4, 5, 7, 10, 30, 60, 61, 120, 1000, 3600, 32_767, 43_691, 65_535][..] } else { &[1u16, 2, 3, 10, 60, 600, 65_535][..] } {
        let k = ka as u64 * 1000;
        let step = (k / 20).max(50);
        // histories: a packet of some kind after some time, then silence
        let n = if thorough { 3 } else { 2 };
        let mut s = Scenario::new(format!("keep-alive {ka}: histories"));
        let x = s.conn();
        s.spin = 20_000;
        let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
        for i in 0..n {
            let mut opts = vec![];
            for (j, (_, f)) in kinds.iter().enumerate() {
                for (d, dt) in [k / 2, k - 10, k].into_iter().enumerate() {
                    if !thorough && i > 0 && (d + j) % 3 != 0 {
                        continue;
                    }
                    let mut w = pass(dt, step);
                    w.push(send(x, f(i as u16)));
                    opts.push(w);
                }
            }
            v.push(branch(opts));
        }
        v.push(branch(vec![
            // silence: open for K, closed by 1.5 K
            script![pass(k - 1, step), Step::Quiet, pass(k, step)],
            // part of a packet is not a packet
            script![pass(k - 20, step), raw(x, vec![0xc0]), pass(k, step)],
            script![pass(k / 2, step), raw(x, vec![0x30, 10, 0]), pass(k / 2, step), raw(x, vec![3, b'a']), pass(k, step)],
            script![pass(k / 2, step), send(x, C::Disconnect)],
        ]));
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        s.parts = 8;
        out.push(s);
        // gaps of all kinds one after another
        let mut s = Scenario::new(format!("keep-alive {ka}: gaps"));
        let x = s.conn();
        s.spin = 20_000;
        let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
        for _ in 0..if thorough { 5 } else { 4 } {
            v.push(branch([1, 3, 6, 9, 10].into_iter().map(|d| script![pass(k * d / 10, k), send(x, C::Ping)]).collect()));
        }
        v.extend(script![pass(k, k), send(x, C::Ping), pass(k, step * 4), pass(k, step)]);
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        s.parts = 8;
        out.push(s);
        // a packet shortly after another, and the longest gap then
        let mut s = Scenario::new(format!("keep-alive {ka}: an early packet"));
        let x = s.conn();
        s.spin = 20_000;
        let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
        v.push(branch(vec![script![], script![pass(k, k), send(x, C::Ping)]]));
        v.push(branch((1..=100).map(|d| script![pass(k * d / 100, k), send(x, C::Ping), pass(k, k), send(x, C::Ping)]).collect()));
        v.extend(script![pass(k, k), pass(k, step)]);
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        out.push(s);
        // the same gap all the time
        for d in 1..=20u64 {
            let mut s = Scenario::new(format!("keep-alive {ka}: a packet every {} ms", k * d / 20));
            let x = s.conn();
            s.spin = 20_000;
            let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
            for i in 0..50usize {
                v.extend(pass(k * d / 20, k));
                v.push(send(x, kinds[if d % 2 == 0 { i % kinds.len() } else { 0 }].1(i as u16)));
            }
            v.extend(pass(2 * k, step));
            s.actor(v);
            s.oracle = keepalive_oracle(step);
            out.push(s);
        }
        // many packets at the limit
        for (nm, f) in &kinds {
            let mut s = Scenario::new(format!("keep-alive {ka}: {nm} at the limit"));
            let x = s.conn();
            s.spin = 20_000;
            let mut v = script![open(x), send(x, C::Connect(connect("x").keepalive(ka))), await_connack(x)];
            for i in 0..8 {
                v.extend(pass(k, step * 5));
                v.push(send(x, f(i)));
            }
            v.extend(pass(2 * k, step));
            s.actor(v);
            s.oracle = keepalive_oracle(step);
            out.push(s);
        }
        // what the broker sends does not count, and other clients do not matter
        let mut s = Scenario::new(format!("keep-alive {ka}: deliveries do not count"));
        s.autoack = false;
        s.spin = 20_000;
        let (x, y) = (s.conn(), s.conn());
        let mut v = script![
            open(y),
            send(y, C::Connect(connect("y").keepalive(0))),
            await_connack(y),
            open(x),
            send(x, C::Connect(connect("x").keepalive(ka))),
            await_connack(x),
            subd(x, 1, &[("t", 1)])
        ];
        for i in 0..6u16 {
            v.extend(pass(k / 3, step));
            v.push(send(y, publ("t", 1, i + 1, &format!("{i}"))));
        }
        v.push(send(y, C::Ping));
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        out.push(s);
        // one of two goes silent; the other keeps its pace
        let mut s = Scenario::new(format!("keep-alive {ka}: two clients"));
        s.spin = 20_000;
        let (x, y) = (s.conn(), s.conn());
        let mut v = script![
            open(x),
            send(x, C::Connect(connect("x").keepalive(ka))),
            await_connack(x),
            pass(k / 2, step),
            open(y),
            send(y, C::Connect(connect("y").keepalive(ka).persistent())),
            await_connack(y)
        ];
        for _ in 0..5 {
            v.extend(pass(k - 1, step));
            v.push(send(y, C::Ping));
        }
        s.actor(v);
        s.oracle = keepalive_oracle(step);
        out.push(s);
    }
    // no keep-alive
    for (nm, c) in [("clean", connect("x")), ("persistent", connect("x").persistent())] {
        let mut s = Scenario::new(format!("keep-alive 0 {nm}"));
        s.spin = 20_000;
        let x = s.conn();
        let mut v = script![open(x), send(x, C::Connect(c)), await_connack(x)];
        for ms in [1000u64, 4000, 10_000, 55_000, 70_000, 600_000, 100_000_000] {
            v.push(Step::Advance(ms));
            v.push(Step::Quiet);
            if ms == 55_000 {
                v.push(send(x, C::Ping));
            }
        }
        v.push(send(x, C::Ping));
        v.push(await_n(x, S::PingResp, 2));
        s.actor(v);
        s.oracle = keepalive_oracle(50);
        out.push(s);
    }
    // never a complete CONNECT
    let full = conn("x").enc();
    let mut opts = vec![script![pass(59_000, 1000), pass(3_000, 100), pass(10_000, 1000)]];
    for i in 1..full.len() {
        opts.push(script![raw(0, full[..i].to_vec()), pass(59_000, 1000), pass(3_000, 100), pass(10_000, 1000)]);
    }
    // drip
    let mut drip = vec![];
    for b in &full[..full.len() - 1] {
        drip.push(raw(0, vec![*b]));
        drip.extend(pass(5_000, 1000));
    }
    opts.push(drip);
    let mut s = Scenario::new("no CONNECT");
    s.spin = 20_000;
    let x = s.conn();
    let y = s.conn();
    s.actor(script![open(x), branch(opts), Step::Quiet]);
    s.actor(script![join(y, "y")]);
    s.oracle = keepalive_oracle(100);
    out.push(s);
    unread(t, out);
    more(t, out);
    // a CONNECT in time counts from its arrival
    let mut opts = vec![];
    for late in [1_000u64, 30_000, 59_000] {
        for ka in [0u16, 5, 100] {
            opts.push(script![pass(late, 1000), send(0, C::Connect(connect("x").keepalive(ka))), await_connack(0), pass(170_000, 250)]);
        }
    }
    let mut s = Scenario::new("late CONNECT");
    s.spin = 20_000;
    let x = s.conn();
    s.actor(script![open(x), branch(opts)]);
    s.oracle = keepalive_oracle(250);
    out.push(s);
    // time-out while the broker is busy, in different default schedules
    let mut s = Scenario::new("schedules");
    let (x, y) = (s.conn(), s.conn());
    s.actor(script![
        open(x),
        send(x, C::Connect(connect("x").keepalive(2))),
        await_connack(x),
        send(x, sub(1, &[("t", 1)])),
        pass(1900, 950),
        send(x, C::Ping),
        pass(2900, 950),
        Step::Quiet,
        pass(300, 50),
    ]);
    s.actor(script![join(y, "y"), send(y, pub0("t", "1")), send(y, pub0("t", "2")), after_actors(1), Step::Quiet, send(y, pub0("t", "3"))]);
    s.oracle = keepalive_oracle(950);
    s.budget = if thorough { 2 } else { 1 };
    s.parts = 8;
    super::vary(s, out);
}
