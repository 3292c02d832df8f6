//! The life of connections and sessions: C11, C12, C13, C14.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::monitor::Opt;
use crate::scen::*;
use crate::script;
use crate::Tier;

pub fn c11(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    // every first packet, followed by others that must not take effect unless it was a good CONNECT
    let firsts: Vec<C> = vec![
        conn("x"),
        pconn("x"),
        C::Connect(Connect { id: String::new(), ..connect("") }),
        C::Connect(Connect { id: String::new(), ..connect("").persistent() }),
        C::Connect(Connect { level: 3, ..connect("x") }),
        C::Connect(Connect { level: 5, ..connect("x") }),
        C::Connect(Connect { level: 0, ..connect("x") }),
        C::Connect(Connect { level: 3, name: b"MQIsdp".to_vec(), ..connect("x") }),
        C::Connect(Connect { name: b"mqtt".to_vec(), ..connect("x") }),
        C::Connect(Connect { name: b"".to_vec(), ..connect("x") }),
        pub0("w", "first"),
        publ("w", 1, 1, "first"),
        publ("w", 2, 1, "first"),
        C::PubAck(1),
        C::PubRec(1),
        C::PubRel(1),
        C::PubComp(1),
        sub(1, &[("w", 1)]),
        unsub(1, &["w"]),
        C::Ping,
        C::Disconnect,
        C::Raw(vec![0x20, 2, 0, 0]),
        C::Raw(vec![0x90, 3, 0, 1, 0]),
        C::Raw(vec![0xb0, 2, 0, 1]),
        C::Raw(vec![0xd0, 0]),
        C::Raw(vec![0xf0, 0]),
        C::Raw(vec![0x00, 0]),
    ];
    for pipelined in [false, true] {
        let mut s = Scenario::new(format!("sequences of two, pipelined={pipelined}"));
        let (b, x) = (s.conn(), s.conn());
        let mut one = vec![];
        let mut two = vec![];
        for f in &firsts {
            one.push(if pipelined { script![send(x, f.clone())] } else { script![send(x, f.clone()), Step::Quiet] });
        }
        for f in &firsts {
            two.push(if pipelined {
                script![sends(x, &[f.clone(), pub0("w", "later"), sub(2, &[("v", 0)])])]
            } else {
                script![send(x, f.clone()), Step::Quiet, send(x, pub0("w", "later")), send(x, sub(2, &[("v", 0)]))]
            });
        }
        s.actor(script![
            join(b, "b"),
            subd(b, 1, &[("w", 1)]),
            open(x),
            branch(one),
            branch(two),
            Step::Quiet,
            send(b, pub0("v", "v")),
            send(b, pub0("w", "w")),
            Step::Quiet
        ]);
        s.parts = 8;
        out.push(s.std());
    }
    // every combination of connect flags, with the fields they announce, and with one field too many or few
    let mut s = Scenario::new("connect flags");
    let (b, x) = (s.conn(), s.conn());
    let mut opts = vec![];
    for fl in 0..=255u8 {
        for id in ["x", ""] {
            for delta in -1i32..=1 {
                let mut bd = vec![];
                put_str(&mut bd, b"MQTT");
                bd.push(4);
                bd.push(fl);
                bd.extend([0, 0]);
                put_str(&mut bd, id.as_bytes());
                let mut fields: Vec<&[u8]> = vec![];
                if fl & 4 != 0 {
                    fields.push(b"will/t");
                    fields.push(&[0, 0xff]);
                }
                if fl & 0x80 != 0 {
                    fields.push(b"user");
                }
                if fl & 0x40 != 0 {
                    fields.push(&[0xfe, 1]);
                }
                match delta {
                    -1 => {
                        if fields.pop().is_none() {
                            continue;
                        }
                    }
                    1 => fields.push(b"more"),
                    _ => {}
                }
                for f in fields {
                    put_str(&mut bd, f);
                }
                let mut bytes = frame(0x10, &bd);
                bytes.extend(pub0("w", "after").enc());
                opts.push(script![raw(x, bytes)]);
            }
        }
    }
    s.actor(script![join(b, "b"), subd(b, 1, &[("#", 1)]), open(x), branch(opts), Step::Quiet]);
    s.probe();
    s.parts = 8;
    out.push(s.std());
    // contents of the fields: empty ones, long ones, any bytes; none of them is a reason to refuse
    let mut s = Scenario::new("connect fields");
    let (b, x) = (s.conn(), s.conn());
    let mut opts = vec![];
    let fill: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xff],
        b"x".to_vec(),
        "\u{1}\u{7f}\u{10ffff}".into(),
        vec![b'z'; 255],
        vec![b'z'; 256],
        vec![b'z'; 65_535],
        (0..=255).collect(),
    ];
    let is_text = |v: &Vec<u8>| std::str::from_utf8(v).is_ok_and(|v| !v.contains('\0'));
    for ka in [0u16, 1, 255, 256, 65_535] {
        opts.push(script![sends(x, &[C::Connect(Connect { keepalive: ka, ..connect("x") }), pub0("w", "after")])]);
    }
    let mut with = |fl: u8, fields: &[&[u8]]| {
        let mut bd = vec![];
        put_str(&mut bd, b"MQTT");
        bd.push(4);
        bd.push(fl);
        bd.extend([0, 0]);
        put_str(&mut bd, b"x");
        for f in fields {
            put_str(&mut bd, f);
        }
        let mut bytes = frame(0x10, &bd);
        bytes.extend(pub0("w", "after").enc());
        opts.push(script![raw(x, bytes)]);
    };
    for f in &fill {
        for clean in [0u8, 2] {
            // the will's topic and message
            if is_text(f) && !f.is_empty() {
                with(0x04 | clean, &[f, b"m"]);
                with(0x2c | clean, &[f, b""]);
            }
            with(0x04 | clean, &[b"will/t", f]);
            with(0x34 | clean, &[b"will/t", f]);
            // user name and password
            if is_text(f) {
                with(0x80 | clean, &[f]);
                with(0xc0 | clean, &[f, b""]);
            }
            with(0xc0 | clean, &[b"user", f]);
            with(0xc4 | clean, &[b"w", b"", b"", f]);
        }
    }
    s.actor(script![join(b, "b"), subd(b, 1, &[("w", 1)]), open(x), branch(opts), Step::Quiet, send(x, C::Ping), Step::Quiet]);
    s.parts = 4;
    out.push(s.std());
    // every protocol level, and names
    let mut s = Scenario::new("protocol levels");
    let (b, x) = (s.conn(), s.conn());
    let mut opts = vec![];
    for l in 0..=255u8 {
        for clean in [true, false] {
            for id in ["x", ""] {
                let c = C::Connect(Connect { level: l, clean, id: id.into(), ..connect("x") });
                opts.push(script![sends(x, &[c, pub0("w", "after")])]);
            }
        }
    }
    for name in [&b"MQTT"[..], b"MQTTX", b"MQT", b"mqtt", b"MQIsdp", b"", b"MQTT\0", b"\xff\xff"] {
        for l in [3u8, 4, 5] {
            opts.push(script![sends(x, &[C::Connect(Connect { level: l, name: name.to_vec(), ..connect("x") }), pub0("w", "after")])]);
        }
    }
    s.actor(script![join(b, "b"), subd(b, 1, &[("#", 1)]), open(x), branch(opts), Step::Quiet]);
    s.parts = 4;
    out.push(s.std());
    // client identifiers of every kind; keep-alives
    let ids: Vec<String> = ["a", "A", "0", "with space", "é", "日本", "a/b", "#", "+", "$SYS", "x\u{1}y", "-", "a\"b", "\u{10ffff}"]
        .iter()
        .map(|x| x.to_string())
        .chain([1usize, 22, 23, 24, 25, 63, 64, 127, 128, 255, 256, 1000, 10_000, 65_535].iter().map(|n| "i".repeat(*n)))
        .collect();
    for (k, id) in ids.iter().enumerate() {
        for clean in [true, false] {
            let mut s = Scenario::new(format!("identifier {k} clean={clean}"));
            let (x, y) = (s.conn(), s.conn());
            let c = C::Connect(Connect { clean, keepalive: [0, 1, 60, 65_535][k % 4], ..connect(id) });
            s.actor(script![
                open(x),
                send(x, c.clone()),
                await_connack(x),
                subd(x, 1, &[("t", 1)]),
                send(x, pub0("t", "own")),
                Step::Quiet,
                send(x, C::Disconnect),
                Step::Quiet,
                open(y),
                send(y, c),
                await_connack(y),
                send(y, pub0("t", "again")),
                subd(y, 1, &[("t", 0)]),
                send(y, pub0("t", "third")),
            ]);
            out.push(s.std());
        }
    }
    // clients without identifier do not get in each other's way
    let mut s = Scenario::new("anonymous clients");
    let cs: Vec<usize> = (0..5).map(|_| s.conn()).collect();
    let mut v = vec![];
    for c in &cs {
        v.push(open(*c));
        v.push(send(*c, C::Connect(Connect { id: String::new(), ..connect("") })));
        v.push(await_connack(*c));
        v.extend(subd(*c, 1, &[("t", 1)]));
    }
    v.push(send(cs[0], publ("t", 1, 1, "x")));
    v.push(Step::Quiet);
    v.push(send(cs[0], C::Disconnect));
    v.push(send(cs[1], publ("t", 2, 1, "y")));
    s.actor(v);
    out.push(s.std());
    // many clients
    for n in if thorough { vec![50usize, 120, 300, 1_100, 4_200] } else { vec![50, 120, 300, 1_100] } {
        let mut s = Scenario::new(format!("{n} clients"));
        s.spin = 1_000_000;
        let mut v = vec![];
        for i in 0..n {
            let c = s.conn();
            v.push(open(c));
            v.push(send(c, conn(&format!("c{i}"))));
        }
        v.push(Step::Quiet);
        s.actor(v);
        s.eager = n == 120;
        s.cost[K::Early as usize] = OFF;
        out.push(s.std());
    }
    // the handshake under all schedules; everything in one segment; the packet in halves
    let mut s = Scenario::new("schedules");
    let (a, b, x) = (s.conn(), s.conn(), s.conn());
    let cb = conn("b").enc();
    s.actor(script![open(a), sends(a, &[conn("a"), sub(1, &[("t", 1)]), publ("t", 1, 2, "a1"), C::Ping])]);
    s.actor(script![open(b), raw(b, cb[..7].to_vec()), raw(b, [&cb[7..], &sub(1, &[("t", 0)]).enc()[..]].concat())]);
    s.actor(script![open(x), sends(x, &[publ("t", 1, 1, "never"), conn("x")])]);
    s.budget = if thorough { 2 } else { 1 };
    s.parts = if thorough { 16 } else { 2 };
    vary(s.std(), out);
    let mut s = Scenario::new("second CONNECT schedules");
    let (a, b) = (s.conn(), s.conn());
    s.actor(script![join(b, "b"), subd(b, 1, &[("t", 1)]), send(b, pub0("t", "b1"))]);
    s.actor(script![open(a), sends(a, &[conn("a"), sub(1, &[("t", 1)]), conn("a"), pub0("t", "never")])]);
    s.probe();
    s.budget = if thorough { 2 } else { 1 };
    s.parts = if thorough { 16 } else { 2 };
    vary(s.std(), out);
    // a CONNECT refused does not disturb the client whose name it uses
    for bad in 0..3 {
        let mut s = Scenario::new(format!("refused CONNECT {bad}"));
        let (a, b, p) = (s.conn(), s.conn(), s.conn());
        let c = match bad {
            0 => C::Connect(Connect { level: 5, ..connect("a") }),
            1 => C::Raw({
                let mut x = conn("a").enc();
                x[9] |= 1;
                x
            }),
            _ => C::Raw({
                let mut x = conn("a").enc();
                x[1] += 1;
                x.push(0);
                x
            }),
        };
        s.actor(script![
            join(a, "a"),
            subd(a, 1, &[("t", 1)]),
            open(b),
            send(b, c),
            Step::Quiet,
            join(p, "p"),
            send(p, publ("t", 1, 1, "m")),
            Step::Quiet,
            send(a, C::Ping)
        ]);
        out.push(s.std());
    }
}

pub fn c12(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let kinds = [(true, true), (true, false), (false, true), (false, false)];
    // sequential takeovers: what the old connection does afterwards must not matter
    for (oc, nc) in kinds {
        let mut s = Scenario::new(format!("takeover old clean={oc} new clean={nc}"));
        let (a, b, c, p) = (s.conn(), s.conn(), s.conn(), s.conn());
        let cn = |k: bool| C::Connect(Connect { clean: k, ..connect("x") });
        let late = |x: usize| {
            branch(vec![
                script![],
                script![send(x, C::Disconnect)],
                script![send(x, sub(5, &[("late", 0)]))],
                script![send(x, unsub(5, &["t"]))],
                script![send(x, publ("t", 1, 9, "late"))],
                script![eof(x)],
                script![reset(x)],
                script![gone(x)],
            ])
        };
        s.actor(script![
            join(p, "p"),
            open(a),
            send(a, cn(oc)),
            await_connack(a),
            branch(vec![script![], subd(a, 1, &[("t", 1), ("old", 1)]), script![window(a, Some(0)), send(p, pub0("t", "into the window"))]]),
            open(b),
            send(b, cn(nc)),
            await_connack(b),
            late(a),
            Step::Quiet,
            subd(b, 2, &[("t", 2)]),
            send(p, publ("t", 1, 1, "m1")),
            Step::Quiet,
            send(p, publ("old", 1, 2, "m2")),
            Step::Quiet,
            branch(vec![
                script![],
                script![open(c), send(c, cn(oc)), await_connack(c), late(b), Step::Quiet, subd(c, 3, &[("t", 1)])]
            ]),
            send(p, publ("t", 2, 3, "m3")),
            Step::Quiet,
            send(p, publ("old", 2, 4, "m4")),
            Step::Quiet,
        ]);
        s.probe();
        s.parts = 4;
        out.push(s.std());
    }
    // the old connection is doing something at the time of the takeover, under all schedules
    let acts: Vec<(&str, fn(usize) -> Vec<Step>)> = vec![
        ("idle", |_| vec![]),
        ("disconnect", |a| script![send(a, C::Disconnect)]),
        ("eof", |a| script![eof(a)]),
        ("reset", |a| script![reset(a)]),
        ("subscribe", |a| script![send(a, sub(4, &[("u", 1)]))]),
        ("publish", |a| script![send(a, publ("t", 1, 4, "a1"))]),
        ("sub+disconnect", |a| script![sends(a, &[sub(4, &[("t", 0)]), C::Disconnect])]),
        ("unsubscribe", |a| script![send(a, unsub(4, &["t"]))]),
    ];
    for (n, f) in &acts {
        for (oc, nc) in kinds {
            if !thorough && oc != nc && !matches!(*n, "disconnect" | "eof") {
                continue;
            }
            let mut s = Scenario::new(format!("schedules {n} clean={oc},{nc}"));
            let (a, b, p) = (s.conn(), s.conn(), s.conn());
            let cn = |k: bool| C::Connect(Connect { clean: k, ..connect("x") });
            s.actor(script![open(a), send(a, cn(oc)), await_connack(a), subd(a, 1, &[("t", 1)]), f(a)]);
            s.actor(script![
                after(0, 5),
                open(b),
                send(b, cn(nc)),
                await_connack(b),
                subd(b, 2, &[("t", 2)]),
                join(p, "p"),
                send(p, publ("t", 1, 1, "p1"))
            ]);
            s.actor(script![after_actors(2), Step::Quiet, send(p, publ("t", 1, 2, "p2")), Step::Quiet, send(b, C::Ping)]);
            s.budget = if thorough || oc == nc && matches!(*n, "disconnect" | "eof") { 2 } else { 1 };
            s.parts = 16;
            if thorough {
                vary(s.std(), out);
            } else {
                let mut two = vec![];
                vary(s.std(), &mut two);
                two.truncate(2);
                out.extend(two);
            }
        }
    }
    // the newer connection sends everything at once, so that it is served before the older one notices
    for (n, f) in &acts {
        for (oc, nc) in kinds {
            for first in [true, false] {
                let mut s = Scenario::new(format!("pipelined {n} clean={oc},{nc} first={first}"));
                let (a, b, p) = (s.conn(), s.conn(), s.conn());
                let cn = |k: bool| C::Connect(Connect { clean: k, ..connect("x") });
                let go = sends(b, &[cn(nc), sub(2, &[("t", 2), ("v", 0)]), unsub(3, &["v"]), sub(4, &[("w", 1)])]);
                let mut v = script![open(a), send(a, cn(oc)), await_connack(a), subd(a, 1, &[("t", 1), ("w", 0)]), open(b), Step::Quiet];
                if first {
                    v.extend(f(a));
                    v.push(go);
                } else {
                    v.push(go);
                    v.extend(f(a));
                }
                v.extend(script![
                    await_n(b, suback(4, &[1]), 1),
                    Step::Quiet,
                    join(p, "p"),
                    send(p, publ("t", 1, 1, "p1")),
                    send(p, publ("w", 1, 2, "p2")),
                    send(p, publ("v", 1, 3, "p3")),
                    Step::Quiet
                ]);
                s.actor(v);
                s.budget = if thorough { 2 } else { 1 };
                s.parts = if thorough { 16 } else { 1 };
                vary(s.std(), out);
            }
        }
    }
    // both connect at the same time; three at the same time
    for n in [2usize, 3] {
        let mut s = Scenario::new(format!("{n} at once"));
        let mut cs = vec![];
        for i in 0..n {
            let c = s.conn();
            cs.push(c);
            let cn = C::Connect(Connect { clean: i != 1, ..connect("x") });
            s.actor(script![
                open(c),
                send(c, cn),
                wait(format!("c{c} to be accepted or taken over"), move |o| o.conns[c].dropped || !o.conns[c].got.is_empty())
            ]);
        }
        let p = s.conn();
        let q = s.conn();
        let all = cs.clone();
        s.actor(script![
            after_actors(n),
            Step::Quiet,
            wait("all but one to be closed", move |o| all.iter().filter(|c| o.conns[**c].dropped).count() == n - 1),
            // whoever is left is served (the others' packets go nowhere)
            Step::Quiet,
            branch(vec![cs.iter().map(|c| send(*c, sub(1, &[("t", 1)]))).collect()]),
            Step::Quiet,
            join(p, "p"),
            send(p, publ("t", 1, 1, "m")),
            Step::Quiet,
            join(q, "x"),
            wait("all but one to be closed again", move |o| (0..n).all(|c| o.conns[c].dropped))
        ]);
        s.cost[K::Env as usize] = 1;
        s.budget = if thorough { 3 } else { 2 };
        if n == 3 {
            s.budget -= 1;
        }
        s.parts = 16;
        let all = cs.clone();
        s.oracle = std::sync::Arc::new(move |r, bad| {
            // who wins is open here: judge the outcome only
            let live: Vec<usize> = all.iter().copied().filter(|c| r.obs.conns[*c].got.iter().any(|s| matches!(s, S::SubAck(..)))).collect();
            if live.len() != 1 {
                bad.push(format!("{} connections are served", live.len()));
            }
            let got: usize = all.iter().map(|c| r.obs.count(*c, |s| matches!(s, S::Publish { .. }))).sum();
            if got != 1 {
                bad.push(format!("the message is delivered {got} times"));
            }
            for c in &all {
                match r.obs.conns[*c].got.first() {
                    Some(S::ConnAck(..)) | None => {}
                    x => bad.push(format!("c{c}: first packet {x:?}")),
                }
            }
        });
        vary(s, out);
    }
    // identifiers that are nearly the same belong to different clients
    let groups = identifier_groups();
    for (k, g) in groups.iter().enumerate() {
        for clean in [true, false] {
            let mut s = Scenario::new(format!("similar identifiers {k} clean={clean}"));
            let cs: Vec<usize> = g.iter().map(|_| s.conn()).collect();
            let ds: Vec<usize> = g.iter().map(|_| s.conn()).collect();
            let mut v = vec![];
            for (i, id) in g.iter().enumerate() {
                v.push(open(cs[i]));
                v.push(send(cs[i], C::Connect(Connect { clean, ..connect(id) })));
                v.push(await_connack(cs[i]));
                v.extend(subd(cs[i], 1, &[("t", 1), (&format!("own/{i}"), 0)]));
            }
            v.push(send(cs[0], publ("t", 1, 1, "all")));
            v.push(Step::Quiet);
            // the sessions are separate, too
            for (i, id) in g.iter().enumerate() {
                v.push(match i % 2 {
                    0 => send(cs[i], C::Disconnect),
                    _ => eof(cs[i]),
                });
                v.push(Step::Quiet);
                v.push(open(ds[i]));
                v.push(send(ds[i], C::Connect(Connect { clean: clean ^ (i % 3 == 2), ..connect(id) })));
                v.push(await_connack(ds[i]));
                v.push(send(ds[i], pub0("t", &format!("d{i}"))));
                v.push(Step::Quiet);
                v.extend(unsubd(ds[i], 2, &["t"]));
            }
            v.push(send(ds[0], pub0("t", "rest")));
            v.push(Step::Quiet);
            for i in 0..g.len() {
                v.push(send(ds[i], pub0(&format!("own/{i}"), &format!("o{i}"))));
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // a long chain of takeovers
    let long = if t == Tier::Quick { 300 } else { 1_200 };
    for (n, clean) in [(10usize, Some(true)), (120, Some(true)), (long, Some(true)), (long, Some(false)), (60, None)] {
        let mut s = Scenario::new(match clean {
            Some(true) => format!("chain of {n}"),
            Some(false) => format!("chain of {n}, kept"),
            None => format!("chain of {n}, kept or not"),
        });
        s.spin = 60_000;
        if n > 120 {
            s.cost[K::Early as usize] = OFF;
        }
        let p = s.conn();
        let mut v = join(p, "p");
        for i in 0..n {
            let c = s.conn();
            let clean = clean.unwrap_or(i % 5 == 1 || i % 7 < 2);
            v.extend([open(c), send(c, C::Connect(Connect { clean, ..connect("x") })), await_connack(c)]);
            v.extend(subd(c, 1, &[("t", 1)]));
            v.push(send(p, publ("t", 1, 1, &format!("m{i}"))));
            v.push(Step::Quiet);
        }
        s.actor(v);
        out.push(s.std());
    }
    // a takeover in the middle of a flood to the old connection, which does not read
    for flood in [5usize, 90, 120, 350] {
        for nc in [true, false] {
            let mut s = Scenario::new(format!("takeover of a stalled reader, {flood} messages, clean={nc}"));
            s.spin = 30_000;
            let (a, b, p) = (s.conn(), s.conn(), s.conn());
            let cn = C::Connect(Connect { clean: nc, ..connect("x") });
            s.actor(script![
                open(a),
                send(a, cn.clone()),
                await_connack(a),
                subd(a, 1, &[("t", 1)]),
                window(a, Some(0)),
                join(p, "p"),
                sends(p, &(0..flood).map(|i| pub0("t", &format!("f{i}"))).collect::<Vec<_>>()),
                open(b),
                send(b, cn),
                await_connack(b),
                await_closed(a),
                subd(b, 1, &[("t", 0)]),
                send(p, publ("t", 1, 1, "m")),
                await_n(p, S::PubAck(1), 1),
                await_pubs(b, 1),
            ]);
            s.probe();
            out.push(s.std());
        }
    }
}

/// Groups of distinct identifiers that a careless comparison would take for the same.
fn identifier_groups() -> Vec<Vec<String>> {
    let mut g: Vec<Vec<String>> = [
        vec!["a", "A"],
        vec!["a", "a ", " a", " a ", "  a", "a\t", "a\n", "a\u{a0}", "a\u{2003}"],
        vec![" ", "  ", "\t", "\n"],
        vec!["a", "aa", "aaa", "ab", "ba", "b"],
        vec!["é", "e\u{301}", "e", "É"],
        vec!["1", "01", "1.0", "+1", "0x1", "1e0"],
        vec!["a/b", "a", "b", "a/", "/a", "a/b/"],
        vec!["a", "a\u{1}", "a\u{7f}", "\u{1}a"],
        vec!["ß", "ss", "SS", "ẞ"],
        vec!["ﬁ", "fi", "K", "\u{212a}", "k"],
        vec!["a,b", "a b", "a;b", "a|b", "a:b", "a-b", "a_b", "a.b"],
        vec!["#", "+", "*", "$SYS", "$share"],
        vec!["client", "client-1", "client-2", "client-10", "client1", "Client"],
        vec!["\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10fffd}"],
        vec!["日本", "日", "本日", "日本語"],
    ]
    .into_iter()
    .map(|v| v.into_iter().map(String::from).collect())
    .collect();
    // long ones that differ in one place, or in length
    for n in [8usize, 16, 22, 23, 24, 32, 36, 64, 128, 255, 256, 1024, 65_535] {
        let base = "x".repeat(n);
        let at = |i: usize| {
            let mut b = base.clone();
            b.replace_range(i..i + 1, "y");
            b
        };
        g.push(vec![base.clone(), at(n - 1), at(0), at(n / 2), base[..n - 1].to_string()]);
    }
    g
}

pub fn c13(t: Tier, out: &mut Vec<Scenario>) {
    // histories of one client: connect (clean or not), one operation, end in some way; then a probe
    let n = if t == Tier::Quick { 3 } else { 4 };
    for (nm, with_sub) in [("histories", true), ("histories with overlapping filters", false)] {
        let mut s = Scenario::new(nm);
        let p = s.conn();
        let o = s.conn();
        let mut v = script![join(p, "p"), join(o, "o"), subd(o, 1, &[("a", 0), ("#", 1)])];
        let mut prev: Option<usize> = None;
        for k in 0..n {
            let c = s.conn();
            // the end of the previous connection (or none: a takeover)
            if let Some(x) = prev {
                v.push(branch(vec![
                    script![send(x, C::Disconnect), Step::Quiet],
                    script![eof(x), Step::Quiet],
                    script![reset(x), Step::Quiet],
                    script![],
                ]));
            }
            let cn = |clean| C::Connect(Connect { clean, ..connect("x") });
            v.push(open(c));
            v.push(branch(vec![script![send(c, cn(true))], script![send(c, cn(false))]]));
            v.push(await_connack(c));
            v.push(Step::Quiet);
            v.push(send(p, publ("a", 1, 1, &format!("a{k}"))));
            v.push(send(p, publ("a/b", 2, 2, &format!("b{k}"))));
            v.push(send(p, C::PubRel(2)));
            v.push(Step::Quiet);
            if with_sub {
                v.push(branch(vec![script![], subd(c, 1, &[("a", 1)]), subd(c, 1, &[("a/b", 2)]), unsubd(c, 2, &["a"])]));
            } else {
                v.push(branch(vec![subd(c, 1, &[("a/#", 1)]), subd(c, 1, &[("+", 0), ("a/b", 2)]), unsubd(c, 2, &["a/#", "+"])]));
            }
            v.push(send(p, publ("a", 1, 3, &format!("c{k}"))));
            v.push(send(p, publ("a/b", 1, 4, &format!("d{k}"))));
            v.push(Step::Quiet);
            prev = Some(c);
        }
        s.actor(v);
        s.parts = 16;
        out.push(s.std());
    }
    // two clients with the same filters: ending one session leaves the other's alone
    let mut s = Scenario::new("two clients");
    let (p, x1, y1, x2, y2) = (s.conn(), s.conn(), s.conn(), s.conn(), s.conn());
    let end = |c: usize| branch(vec![script![send(c, C::Disconnect)], script![eof(c)], script![reset(c)], script![gone(c)]]);
    let probe = |k: u16| script![Step::Quiet, send(p, publ("a", 1, k, &format!("a{k}"))), send(p, publ("a/b", 1, k + 50, &format!("b{k}"))), Step::Quiet];
    let cn = |c: usize, id: &str| branch(vec![script![send(c, conn(id))], script![send(c, pconn(id))]]);
    s.actor(script![
        join(p, "p"),
        open(x1), cn(x1, "x"), await_connack(x1), subd(x1, 1, &[("a", 0), ("a/#", 1), ("+/b", 0)]),
        open(y1), cn(y1, "y"), await_connack(y1), subd(y1, 1, &[("a", 1), ("a/#", 0)]),
        probe(1),
        end(x1),
        probe(2),
        open(x2), cn(x2, "x"), await_connack(x2),
        probe(3),
        end(y1),
        probe(4),
        open(y2), cn(y2, "y"), await_connack(y2),
        probe(5),
        subd(x2, 2, &[("a/b", 2)]),
        probe(6),
    ]);
    s.parts = 16;
    out.push(s.std());
    // every way a connection can end, persistent session, several times in a row
    let mut s = Scenario::new("persistent session over many connections");
    let p = s.conn();
    let mut v = join(p, "p");
    for k in 0..6u16 {
        let c = s.conn();
        v.extend(pjoin(c, "x"));
        v.push(Step::Quiet);
        if k == 0 {
            v.extend(subd(c, 1, &[("t", 1), ("t/#", 2)]));
        }
        v.push(send(p, publ("t", 2, k + 1, &format!("m{k}"))));
        v.push(Step::Quiet);
        v.push(match k {
            0 => send(c, C::Disconnect),
            1 => eof(c),
            2 => reset(c),
            3 => raw(c, vec![0xf0, 0]),
            4 => send(c, conn("x")),
            _ => gone(c),
        });
        v.push(Step::Quiet);
        v.push(send(p, publ("t", 0, 0, &format!("lost{k}"))));
        v.push(Step::Quiet);
    }
    s.actor(v);
    out.push(s.std());
    // every way a connection can end, for whatever reason, and then every other way
    type Way = (&'static str, fn(usize, usize) -> Vec<Step>);
    let ways: Vec<Way> = vec![
        ("DISCONNECT", |c, _| script![send(c, C::Disconnect)]),
        ("DISCONNECT and more", |c, _| script![sends(c, &[C::Disconnect, unsub(9, &["t"]), pub0("t", "no")])]),
        ("end", |c, _| script![eof(c)]),
        ("end within a packet", |c, _| script![raw(c, vec![0xa2, 5, 0]), eof(c)]),
        ("reset", |c, _| script![reset(c)]),
        ("gone", |c, _| script![gone(c)]),
        ("malformed", |c, _| script![raw(c, vec![0xa2, 3, 0, 1, 0])]),
        ("forbidden", |c, _| script![raw(c, vec![0xd0, 0])]),
        ("topic", |c, _| script![send(c, publ("#", 1, 3, "no"))]),
        ("second CONNECT", |c, _| script![send(c, conn("x"))]),
        ("second CONNECT of another", |c, _| script![send(c, conn("other"))]),
        ("silence", |_, _| script![Step::Advance(10_000), Step::Advance(5_000), Step::Advance(1_000)]),
        ("silence within a packet", |c, _| script![raw(c, vec![0xa2, 5, 0]), Step::Advance(10_000), Step::Advance(6_000)]),
        ("unread", |c, p| {
            script![window(c, Some(1)), send(c, C::Ping), send(p, pub0("t", "unread")), Step::Advance(10_000), Step::Advance(6_000)]
        }),
        ("overload", |c, p| {
            let mut v = script![window(c, Some(0))];
            for k in 0..11 {
                v.push(sends(p, &(0..920).map(|i| pub0("t", &format!("{k}.{i}"))).collect::<Vec<_>>()));
                v.push(Step::Quiet);
            }
            v.push(window(c, None));
            v
        }),
        ("takeover", |_, _| script![]),
    ];
    for (n1, w1) in &ways {
        for (n2, w2) in &ways {
            if (*n1 == "overload" || *n2 == "overload") && !(n1 == n2 || matches!(*n1, "DISCONNECT" | "silence") || matches!(*n2, "takeover" | "gone")) {
                continue;
            }
            let mut s = Scenario::new(format!("ended by {n1}, then by {n2}"));
            s.spin = 100_000;
            s.max_steps = 1_000_000;
            s.cost[K::Early as usize] = OFF;
            let (p, x1, x2, x3) = (s.conn(), s.conn(), s.conn(), s.conn());
            let cn = |clean| C::Connect(Connect { clean, ..connect("x").keepalive(10) });
            let round = |k: u16| {
                script![Step::Quiet, send(p, publ("t", 2, k + 1, &format!("m{k}"))), send(p, pub0("u", &format!("u{k}"))), Step::Quiet]
            };
            s.actor(script![
                join(p, "p"),
                open(x1),
                send(x1, cn(false)),
                await_connack(x1),
                subd(x1, 1, &[("t", 1), ("u", 0)]),
                round(0),
                w1(x1, p),
                round(1),
                open(x2),
                send(x2, cn(false)),
                await_connack(x2),
                round(2),
                w2(x2, p),
                round(3),
                open(x3),
                branch(vec![script![send(x3, cn(false))], script![send(x3, cn(true))]]),
                await_connack(x3),
                round(4),
            ]);
            s.oracle = standard(Opt { time: true, ..Opt::default() });
            out.push(s);
        }
    }
    // what a kept session holds: filters of every kind and number, with the QoS last granted
    let kinds: Vec<Vec<String>> = vec![
        ["a", "/a", "a/", "/", "//", "a//b", "+", "#", "+/+", "a/#", "/#", "+/b/#", "$SYS/x", "$SYS/#", "$share/g/a", "$share/g/b/+", "é/日本"]
            .iter()
            .map(|x| x.to_string())
            .collect(),
        (0..7).map(|i| format!("a/{}", "x/".repeat(i))).collect(),
        (0..40).map(|i| format!("many/{i}")).collect(),
        (0..300).map(|i| format!("many/{}/{}", i % 17, i)).collect(),
        [1usize, 64, 127, 128, 255, 256, 1000, 4000].iter().map(|n| "l".repeat(*n)).collect(),
        [2usize, 10, 64, 100, 128, 199].iter().map(|n| vec!["d"; *n].join("/")).collect(),
    ];
    for (k, fs) in kinds.iter().enumerate() {
        let mut s = Scenario::new(format!("kept filters {k}"));
        s.spin = 30_000;
        let (p, x1, x2, x3) = (s.conn(), s.conn(), s.conn(), s.conn());
        let topics: Vec<String> = fs.iter().map(|f| f.replace(['+', '#'], "q")).collect();
        let round = |n: usize, v: &mut Vec<Step>| {
            for (i, t) in topics.iter().enumerate() {
                v.push(send(p, pub0(t, &format!("{n}.{i}"))));
                if t.starts_with('$') || k < 2 {
                    v.push(send(p, publ(t, 2, 1, &format!("{n}.{i} q"))));
                    v.push(send(p, C::PubRel(1)));
                }
            }
            v.push(Step::Quiet);
        };
        let subs = |c: usize, pid: u16, q: usize| {
            let l: Vec<(&str, u8)> = fs.iter().enumerate().map(|(i, f)| (f.as_str(), ((i + q) % 3) as u8)).collect();
            subd(c, pid, &l)
        };
        let mut v = script![join(p, "p"), pjoin(x1, "x"), subs(x1, 1, 0)];
        round(0, &mut v);
        // granted again with another QoS, and half of them given up
        v.push(branch(vec![
            script![],
            subs(x1, 2, 1),
            subs(x1, 2, 2),
            unsubd(x1, 2, &fs.iter().step_by(2).map(|f| f.as_str()).collect::<Vec<_>>()),
            script![subs(x1, 2, 2), unsubd(x1, 3, &fs.iter().skip(1).step_by(2).map(|f| f.as_str()).collect::<Vec<_>>()), subs(x1, 4, 1)],
        ]));
        v.push(branch(vec![script![send(x1, C::Disconnect)], script![gone(x1)], script![]]));
        v.push(Step::Quiet);
        v.extend(pjoin(x2, "x"));
        round(1, &mut v);
        v.push(branch(vec![script![], unsubd(x2, 2, &fs.iter().map(|f| f.as_str()).collect::<Vec<_>>()), subs(x2, 2, 1)]));
        v.push(eof(x2));
        v.push(Step::Quiet);
        v.push(branch(vec![pjoin(x3, "x"), join(x3, "x")]));
        round(2, &mut v);
        s.actor(v);
        s.parts = 8;
        out.push(s.std());
    }
    // very many filters in one session
    for n in if t == Tier::Quick { vec![130usize, 1_100] } else { vec![130, 1_100, 4_500, 17_000] } {
        let mut s = Scenario::new(format!("a session of {n} filters"));
        s.spin = 200_000;
        s.cost[K::Early as usize] = OFF;
        let p = s.conn();
        let mut v = join(p, "p");
        let names: Vec<String> = (0..n).map(|i| if i % 3 == 0 { format!("f/{i}/+") } else { format!("f/{i}/x") }).collect();
        let probe = |k: usize, v: &mut Vec<Step>| {
            for i in (0..n).step_by(n / 60).chain([n - 1, n - 2, 99, 100, 101, 127, 128]) {
                v.push(send(p, publ(&format!("f/{i}/x"), 1, (k * 1000 + i % 1000 + 1) as u16, &format!("{k}.{i}"))));
            }
            v.push(Step::Quiet);
        };
        for k in 0..4 {
            let c = s.conn();
            v.extend(pjoin(c, "x"));
            // half of them by the first connection, the others by the second; some are given up by the third
            if k < 2 {
                for (j, l) in names[k * n / 2..(k + 1) * n / 2].chunks(37).enumerate() {
                    let l: Vec<(&str, u8)> = l.iter().map(|f| (f.as_str(), (j % 3) as u8)).collect();
                    v.extend(subd(c, j as u16 + 1, &l));
                }
            } else if k == 2 {
                v.extend(unsubd(c, 1, &names.iter().step_by(7).map(|f| f.as_str()).collect::<Vec<_>>()));
            }
            probe(2 * k, &mut v);
            v.push(if k % 2 == 0 { eof(c) } else { send(c, C::Disconnect) });
            v.push(Step::Quiet);
            probe(2 * k + 1, &mut v);
        }
        s.actor(v);
        out.push(s.std());
    }
    // very many connections of one session
    let n = if t == Tier::Quick { 280 } else { 1_200 };
    let mut s = Scenario::new(format!("a session over {n} connections"));
    s.spin = 200_000;
    s.cost[K::Early as usize] = OFF;
    let p = s.conn();
    let mut v = join(p, "p");
    for k in 0..n {
        let c = s.conn();
        v.extend(pjoin(c, "x"));
        if k == 0 {
            v.extend(subd(c, 1, &[("t", 1), ("t/+", 2), ("u", 0)]));
        }
        v.extend([send(p, publ("t", 1, k as u16 + 1, &format!("m{k}"))), send(p, pub0("t/u", &format!("n{k}"))), send(p, pub0("u", &format!("u{k}"))), Step::Quiet]);
        v.push(match k % 4 {
            0 => send(c, C::Disconnect),
            1 => eof(c),
            // (taken over)
            2 => Step::Quiet,
            _ => reset(c),
        });
        v.push(Step::Quiet);
    }
    s.actor(v);
    out.push(s.std());
    // more sessions than are ever connected at the same time; all are kept until they are asked for
    for n in [100usize, 1_200] {
        let mut s = Scenario::new(format!("{n} sessions without connection"));
        s.spin = 60_000;
        s.cost[K::Early as usize] = OFF;
        let p = s.conn();
        let mut v = join(p, "p");
        for i in 0..n {
            let c = s.conn();
            v.extend(pjoin(c, &format!("k{i}")));
            v.extend(subd(c, 1, &[(&format!("own/{i}"), 1)]));
            v.push(if i % 2 == 0 { send(c, C::Disconnect) } else { eof(c) });
        }
        v.push(Step::Quiet);
        for i in (0..n).step_by(if n > 500 { 7 } else { 1 }) {
            let c = s.conn();
            v.extend(pjoin(c, &format!("k{i}")));
            v.push(send(p, publ(&format!("own/{i}"), 1, 1, &format!("m{i}"))));
            v.extend([await_pubs(c, 1), send(c, C::Disconnect), Step::Quiet]);
        }
        s.actor(v);
        out.push(s.std());
    }
    // many sessions
    let mut s = Scenario::new("many sessions");
    let p = s.conn();
    let mut v = join(p, "p");
    for r in 0..2 {
        for i in 0..40 {
            let c = s.conn();
            let pers = i % 2 == 0;
            v.extend(if pers { pjoin(c, &format!("c{i}")) } else { join(c, &format!("c{i}")) });
            if r == 0 {
                v.extend(subd(c, 1, &[("t", (i % 3) as u8), (&format!("own/{i}"), 1)]));
            }
            if i % 3 == 0 && r == 0 {
                v.push(eof(c));
            } else if r == 0 {
                v.push(send(c, C::Disconnect));
            }
            v.push(Step::Quiet);
        }
        v.push(send(p, publ("t", 2, r + 1, &format!("m{r}"))));
        v.push(Step::Quiet);
        v.push(sends(p, &(0..40).map(|i| pub0(&format!("own/{i}"), &format!("o{r}.{i}"))).collect::<Vec<_>>()));
        v.push(Step::Quiet);
    }
    s.actor(v);
    out.push(s.std());
    // reconnecting while the old connection's end is being worked on
    for (n, oc, nc) in [("pp", false, false), ("pc", false, true), ("cp", true, false), ("cc", true, true)] {
        for e in 0..3 {
            let mut s = Scenario::new(format!("schedules {n} end {e}"));
            let (a, b, p) = (s.conn(), s.conn(), s.conn());
            let cn = |k: bool| C::Connect(Connect { clean: k, ..connect("x") });
            s.actor(script![
                open(a),
                send(a, cn(oc)),
                await_connack(a),
                subd(a, 1, &[("t", 1)]),
                match e {
                    0 => send(a, C::Disconnect),
                    1 => eof(a),
                    _ => reset(a),
                },
                open(b),
                send(b, cn(nc)),
                await_connack(b),
                subd(b, 2, &[("u", 1)]),
                Step::Quiet,
                join(p, "p"),
                send(p, publ("u", 1, 1, "u1")),
                send(p, publ("t", 1, 2, "t1")),
                Step::Quiet
            ]);
            s.budget = if t == Tier::Quick { 1 } else { 2 };
            s.parts = if t == Tier::Quick { 2 } else { 16 };
            vary(s.std(), out);
        }
    }
}

pub fn c14(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let victim: Vec<C> = vec![
        pconn("v"),
        sub(1, &[("t", 2), ("v/#", 0)]),
        publ("w", 1, 2, "one"),
        publ("w", 2, 3, "two"),
        C::PubRel(3),
        pub0("v/x", "own"),
        unsub(4, &["t"]),
        C::Ping,
    ];
    let bytes: Vec<u8> = victim.iter().flat_map(|p| p.enc()).collect();
    // loss at every byte, of every kind, with the broker idle in between or not
    for kind in 0..4 {
        let mut s = Scenario::new(format!("cut at every byte, kind {kind}"));
        let (b, v, p) = (s.conn(), s.conn(), s.conn());
        let mut opts = vec![];
        for i in 0..=bytes.len() {
            for quiet in [true, false] {
                let mut w = vec![];
                if i > 0 {
                    w.push(raw(v, bytes[..i].to_vec()));
                }
                if quiet {
                    w.push(Step::Quiet);
                }
                w.push(send(p, publ("t", 1, 9, "in flight")));
                match kind {
                    0 => w.push(eof(v)),
                    1 => w.push(gone(v)),
                    2 => w.push(reset(v)),
                    _ => w.push(Step::Reset(v, std::io::ErrorKind::TimedOut)),
                }
                opts.push(w);
            }
        }
        s.actor(script![
            join(b, "b"),
            subd(b, 1, &[("w", 2), ("t", 1)]),
            join(p, "p"),
            open(v),
            branch(opts),
            Step::Quiet,
            send(p, publ("t", 1, 10, "after")),
            send(p, publ("v/x", 1, 11, "after v")),
            send(b, pub0("t", "b")),
            Step::Quiet
        ]);
        s.probe();
        s.parts = 8;
        out.push(s.std());
    }
    // connections that are lost before they are accepted, at every moment of other clients' conversations
    for kind in accept_failures() {
        let mut s = Scenario::new(format!("accept fails with {kind:?}"));
        let (a, b) = (s.conn(), s.conn());
        s.actor(script![join(a, "a"), subd(a, 1, &[("t", 1)]), send(a, publ("t", 2, 2, "a1"))]);
        s.actor(script![join(b, "b"), send(b, publ("t", 1, 1, "b1")), send(b, C::Disconnect)]);
        s.actor(script![Step::AcceptFail(kind), Step::AcceptFail(kind)]);
        s.probe();
        s.cost[K::Env as usize] = 0;
        s.budget = if thorough { 1 } else { 0 };
        s.parts = 16;
        vary(s.std(), out);
    }
    let mut s = Scenario::new("accept fails many times");
    let (a, b) = (s.conn(), s.conn());
    let mut v = join(a, "a");
    v.extend(subd(a, 1, &[("t", 1)]));
    for i in 0..2000 {
        v.push(Step::AcceptFail(accept_failures()[i % 5]));
    }
    v.extend(join(b, "b"));
    v.push(send(b, publ("t", 1, 1, "b1")));
    s.actor(v);
    s.probe();
    s.spin = 30_000;
    out.push(s.std());
    // connections on which nothing, or not a whole packet, ever arrives do not keep others waiting
    silent("silent connections", true, out);
    // loss while messages to it are on their way, under all schedules
    for kind in 0..3 {
        for flow in 0..3 {
            let mut s = Scenario::new(format!("schedules loss {kind} flow {flow}"));
            let (b, v, p) = (s.conn(), s.conn(), s.conn());
            let end = match kind {
                0 => eof(v),
                1 => gone(v),
                _ => reset(v),
            };
            s.actor(script![join(b, "b"), subd(b, 1, &[("t", 1)])]);
            s.actor(match flow {
                0 => script![join(v, "v"), subd(v, 1, &[("t", 2)]), end],
                1 => script![join(v, "v"), sends(v, &[sub(1, &[("t", 0)]), publ("t", 1, 2, "v1")]), end],
                _ => script![open(v), send(v, conn("v")), end],
            });
            s.actor(script![
                after(0, 5),
                join(p, "p"),
                send(p, publ("t", 1, 1, "p1")),
                send(p, pub0("t", "p2")),
                Step::Quiet,
                send(p, publ("t", 2, 3, "p3"))
            ]);
            s.budget = if thorough { 2 } else { 1 };
            s.parts = if thorough { 16 } else { 2 };
            vary(s.std(), out);
        }
    }
    // the client goes away while the broker is stuck writing to it
    for kind in 0..3 {
        for n in [1usize, 3, 60, 150] {
            for room in [0usize, 1, 5, 100] {
                let mut s = Scenario::new(format!("stuck write, loss {kind}, {n} messages, room {room}"));
                s.spin = 30_000;
                let (b, v, p) = (s.conn(), s.conn(), s.conn());
                s.actor(script![
                    join(b, "b"),
                    subd(b, 1, &[("t", 1)]),
                    join(v, "v"),
                    subd(v, 1, &[("t", 0)]),
                    window(v, Some(room)),
                    join(p, "p"),
                    sends(p, &(0..n).map(|i| pub0("t", &format!("a message of some length {i}"))).collect::<Vec<_>>()),
                    Step::Quiet,
                    match kind {
                        0 => gone(v),
                        1 => reset(v),
                        _ => script_eof_then_reset(v),
                    },
                    Step::Quiet,
                    send(p, publ("t", 1, 1, "after")),
                    await_n(p, S::PubAck(1), 1),
                    await_pubs(b, n + 1),
                    await_closed(v),
                ]);
                s.probe();
                out.push(s.std());
            }
        }
    }
    // half-closed clients still get what is due to packets before
    let mut s = Scenario::new("half close after a pipeline");
    let (b, v) = (s.conn(), s.conn());
    let mut opts = vec![];
    for k in 1..=victim.len() {
        let bs: Vec<u8> = victim[..k].iter().flat_map(|p| p.enc()).collect();
        opts.push(script![raw(v, bs.clone()), eof(v)]);
        opts.push(script![raw(v, bs), Step::Quiet, eof(v)]);
    }
    s.actor(script![join(b, "b"), subd(b, 1, &[("w", 2)]), open(v), branch(opts), Step::Quiet]);
    s.probe();
    out.push(s.std());
    out.push(many_losses(if thorough { 6000 } else { 1500 }));
    // many connections lost at once
    for n in [20usize, 150] {
        let mut s = Scenario::new(format!("{n} losses"));
        s.spin = 30_000;
        let (b, p) = (s.conn(), s.conn());
        let mut v = script![join(b, "b"), subd(b, 1, &[("t", 1)]), join(p, "p")];
        let cs: Vec<usize> = (0..n).map(|_| s.conn()).collect();
        for (i, c) in cs.iter().enumerate() {
            v.extend(join(*c, &format!("v{i}")));
            v.extend(subd(*c, 1, &[("t", 1)]));
        }
        for (i, c) in cs.iter().enumerate() {
            v.push(match i % 3 {
                0 => eof(*c),
                1 => reset(*c),
                _ => gone(*c),
            });
            if i % 5 == 0 {
                v.push(send(p, pub0("t", &format!("m{i}"))));
            }
        }
        v.push(Step::Quiet);
        v.push(send(p, publ("t", 1, 1, "last")));
        s.actor(v);
        s.probe();
        s.eager = n == 150;
        s.cost[K::Early as usize] = OFF;
        out.push(s.std());
    }
}

/// Very many connections that come one after another, each to end in one of these ways.
pub fn in_turn(name: &str, n: usize, ways: &[&dyn Fn(usize) -> Vec<Step>]) -> Scenario {
    let mut s = Scenario::new(format!("{n} connections in turn: {name}"));
    s.max_steps = 10_000_000;
    s.spin = 100_000;
    let (b, p) = (s.conn(), s.conn());
    let mut v = script![join(b, "b"), subd(b, 1, &[("t", 1)]), join(p, "p")];
    for i in 0..n {
        let c = s.conn();
        v.push(open(c));
        v.extend(ways[i % ways.len()](c));
        v.push(Step::Quiet);
        if i % 100 == 99 {
            v.push(send(p, pub0("t", &format!("m{i}"))));
        }
    }
    v.push(send(p, publ("t", 1, 1, "last")));
    v.push(Step::Quiet);
    s.actor(v);
    s.probe();
    s.cost[K::Early as usize] = OFF;
    s.std()
}

/// Very many connections in turn that the broker has to end for what they send.
pub fn many_malformed(n: usize) -> Scenario {
    let bad: Vec<Vec<u8>> = vec![
        vec![0x00, 0],
        vec![0xf0, 0],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 1],
        vec![0x36, 5, 0, 1, b'a', 0, 1],
        vec![0x82, 0],
        vec![0x80, 6, 0, 1, 0, 1, b'a', 0],
        vec![0x82, 6, 0, 1, 0, 1, b'a', 3],
        vec![0xa2, 2, 0, 1],
        vec![0x30, 4, 0, 2, b'a', b'+'],
        vec![0x40, 3, 0, 1, 0],
        vec![0xc0, 1, 0],
        vec![0xe0, 1, 0],
        vec![0x10, 4, 0, 4, b'M', b'Q'],
    ];
    let mut ways: Vec<Box<dyn Fn(usize) -> Vec<Step>>> = vec![];
    for b in bad {
        let (x, y) = (b.clone(), b.clone());
        ways.push(Box::new(move |c| script![raw(c, x.clone())]));
        ways.push(Box::new(move |c| script![send(c, conn(&format!("v{c}"))), await_connack(c), raw(c, y.clone())]));
        ways.push(Box::new(move |c| script![raw(c, [conn(&format!("v{c}")).enc(), b.clone()].concat())]));
    }
    let w: Vec<&dyn Fn(usize) -> Vec<Step>> = ways.iter().map(|w| &**w).collect();
    in_turn("malformed", n, &w)
}

/// Very many connections in turn whose first packets do not open a session.
pub fn many_refused(n: usize) -> Scenario {
    let mut ways: Vec<Box<dyn Fn(usize) -> Vec<Step>>> = vec![];
    for p in [
        C::Connect(Connect { id: String::new(), ..connect("") }.persistent()),
        C::Connect(Connect { level: 5, ..connect("x") }),
        C::Connect(Connect { level: 3, name: b"MQIsdp".to_vec(), ..connect("x") }),
        C::Connect(Connect { name: b"mqtt".to_vec(), ..connect("x") }),
        pub0("t", "no"),
        publ("t", 2, 1, "no"),
        sub(1, &[("t", 1)]),
        unsub(1, &["t"]),
        C::Ping,
        C::Disconnect,
        C::PubRel(1),
        C::Raw(vec![0x20, 2, 0, 0]),
    ] {
        ways.push(Box::new(move |c| script![send(c, p.clone())]));
    }
    ways.push(Box::new(|c| script![send(c, conn(&format!("v{c}"))), await_connack(c), send(c, conn(&format!("v{c}")))]));
    ways.push(Box::new(|c| script![sends(c, &[conn("z"), conn("z")])]));
    let w: Vec<&dyn Fn(usize) -> Vec<Step>> = ways.iter().map(|w| &**w).collect();
    in_turn("refused", n, &w)
}

fn many_losses(n: usize) -> Scenario {
    use std::io::ErrorKind::*;
    let mut ways: Vec<Box<dyn Fn(usize) -> Vec<Step>>> = vec![];
    for k in [ConnectionReset, ConnectionAborted, BrokenPipe, TimedOut, UnexpectedEof, NotConnected, PermissionDenied, Other] {
        // before CONNECT, within it, idle, within a packet, while the broker writes
        ways.push(Box::new(move |c| script![Step::Reset(c, k)]));
        ways.push(Box::new(move |c| script![raw(c, vec![0x10, 12, 0, 4]), Step::Reset(c, k)]));
        ways.push(Box::new(move |c| script![send(c, conn(&format!("v{c}"))), await_connack(c), Step::Reset(c, k)]));
        ways.push(Box::new(move |c| {
            script![send(c, conn(&format!("v{c}"))), await_connack(c), raw(c, vec![0x30, 9, 0]), Step::Reset(c, k)]
        }));
        ways.push(Box::new(move |c| {
            script![
                send(c, conn(&format!("v{c}"))),
                await_connack(c),
                window(c, Some(1)),
                send(c, C::Ping),
                Step::Quiet,
                Step::Reset(c, k)
            ]
        }));
    }
    ways.push(Box::new(|c| script![eof(c)]));
    ways.push(Box::new(|c| script![raw(c, vec![0x10]), eof(c)]));
    ways.push(Box::new(|c| script![gone(c)]));
    ways.push(Box::new(|c| script![send(c, conn(&format!("v{c}"))), gone(c)]));
    ways.push(Box::new(|c| script![send(c, conn(&format!("v{c}"))), await_connack(c), gone(c)]));
    ways.push(Box::new(|c| script![send(c, conn(&format!("v{c}"))), await_connack(c), raw(c, vec![0x82, 9]), eof(c)]));
    let w: Vec<&dyn Fn(usize) -> Vec<Step>> = ways.iter().map(|w| &**w).collect();
    in_turn("losses", n, &w)
}

pub fn accept_failures() -> [std::io::ErrorKind; 5] {
    use std::io::ErrorKind::*;
    [ConnectionAborted, ConnectionReset, Interrupted, Other, PermissionDenied]
}

/// Clients that stay silent in the middle of something, before, between and after others that are served.
pub fn silent(name: &str, lose: bool, out: &mut Vec<Scenario>) {
    let cb = conn("s").enc();
    let stop: Vec<Vec<u8>> = vec![
        vec![],
        cb[..1].to_vec(),
        cb[..2].to_vec(),
        cb[..cb.len() - 1].to_vec(),
        cb.clone(),
        [&cb[..], &[0x30][..]].concat(),
        [&cb[..], &[0x30, 0x80][..]].concat(),
        [&cb[..], &pub0("t", "half").enc()[..6]].concat(),
        [&cb[..], &sub(1, &[("#", 0)]).enc()[..], &[0x82, 0xff, 0xff, 0x7f, 0][..]].concat(),
    ];
    for n in [1usize, 3, 40] {
        let mut s = Scenario::new(format!("{name} {n}"));
        let (a, b) = (s.conn(), s.conn());
        let sil: Vec<usize> = (0..n).map(|_| s.conn()).collect();
        let last = s.conn();
        let mut opts = vec![];
        for st in &stop {
            let mut w = vec![];
            for (i, c) in sil.iter().enumerate() {
                w.push(open(*c));
                if !st.is_empty() {
                    // the identifiers are different
                    let mut y = st.clone();
                    if y.len() >= cb.len() && n > 1 {
                        y.splice(..cb.len(), conn(&format!("s{i}")).enc());
                    }
                    w.push(raw(*c, y));
                }
            }
            opts.push(w);
        }
        let mut v = script![
            join(a, "a"),
            subd(a, 1, &[("t", 1)]),
            branch(opts),
            join(b, "b"),
            send(b, publ("t", 1, 1, "b1")),
            await_n(b, S::PubAck(1), 1),
            await_pubs(a, 1),
            send(a, C::Ping),
            await_n(a, S::PingResp, 1)
        ];
        if lose {
            v.push(branch(vec![
                sil.iter().map(|c| eof(*c)).collect(),
                sil.iter().map(|c| gone(*c)).collect(),
                sil.iter().map(|c| reset(*c)).collect(),
            ]));
        }
        v.extend(script![join(last, "last"), send(last, publ("t", 1, 1, "l1")), await_n(last, S::PubAck(1), 1), await_pubs(a, 2)]);
        s.actor(v);
        s.probe();
        s.parts = 4;
        vary(s.std(), out);
    }
}

fn script_eof_then_reset(v: usize) -> Step {
    Step::Reset(v, std::io::ErrorKind::ConnectionAborted)
}
