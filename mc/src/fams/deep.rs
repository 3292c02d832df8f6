//! Short races, explored deeply: everything up to the race runs in one schedule.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::monitor::{monitor, Opt};
use crate::scen::*;
use crate::script;
use crate::Tier;
use std::sync::Arc;

struct Race {
    name: &'static str,
    conns: usize,
    setup: Vec<Step>,
    actors: Vec<Vec<Step>>,
    end: Vec<Step>,
    oracle: Option<Oracle>,
    write: bool,
    /// by how much to deviate less
    less: u32,
    /// too large for a third deviation
    heavy: bool,
    probe: bool,
}

fn race(name: &'static str, conns: usize, setup: Vec<Step>, actors: Vec<Vec<Step>>, end: Vec<Step>) -> Race {
    Race { name, conns, setup, actors, end, oracle: None, write: false, less: 0, heavy: false, probe: false }
}

pub fn deep(id: &str, t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    for r in races(id) {
        let mut s = Scenario::new(format!("race: {}", r.name));
        s.conns = r.conns;
        s.late(r.setup, r.actors, r.end);
        if r.probe {
            s.probe();
        }
        s.oracle = r.oracle.unwrap_or_else(|| standard(Opt::default()));
        if r.write {
            s.cost[K::Write as usize] = 1;
        }
        s.budget = if thorough && !r.heavy { 3 } else { 2 };
        s.budget = s.budget.saturating_sub(r.less);
        s.parts = if thorough { 16 } else { 2 };
        s.must_exit = id == "C17";
        vary(s, out);
    }
}

fn races(id: &str) -> Vec<Race> {
    let mut v = vec![];
    match id {
        "C02" => {
            v.push(race(
                "overlapping requests",
                3,
                script![join(0, "x"), join(1, "y"), join(2, "p"), subd(0, 9, &[("a", 0)]), subd(1, 9, &[("a/b", 1)])],
                vec![
                    script![sends(0, &[sub(1, &[("a/b", 1), ("a", 2)]), unsub(2, &["a"])])],
                    script![sends(1, &[unsub(1, &["a/b"]), sub(2, &[("a", 0), ("a/#", 1)])])],
                ],
                script![sends(2, &[pub0("a", "1"), pub0("a/b", "2"), publ("a/b/c", 1, 1, "3")])],
            ));
            v.push(race(
                "requests and an end",
                4,
                script![join(0, "x"), join(1, "y"), join(2, "p"), subd(0, 9, &[("a", 0), ("a/b", 2)]), subd(1, 9, &[("a/b", 1)])],
                vec![
                    script![send(0, C::Disconnect)],
                    script![sends(1, &[sub(1, &[("a", 1)]), unsub(2, &["a/b"])])],
                    script![open(3), send(3, conn("x")), await_connack(3), send(3, sub(4, &[("a/#", 0)]))],
                ],
                script![sends(2, &[pub0("a", "1"), pub0("a/b", "2"), publ("a/b/c", 1, 1, "3")])],
            ));
        }
        "C04" => v.push(race(
            "acknowledgements and deliveries",
            3,
            script![join(0, "r"), subd(0, 1, &[("t", 2)]), join(1, "a"), join(2, "b")],
            vec![
                script![sends(1, &[publ("t", 1, 1, "a1"), publ("t", 2, 2, "a2"), C::PubRel(2)])],
                script![send(2, publ("t", 1, 1, "b1"))],
                script![send(0, C::PubAck(1)), sends(0, &[C::PubRec(2), C::PubComp(2)]), send(0, C::PubComp(1))],
            ],
            script![send(2, publ("t", 1, 9, "last"))],
        )),
        "C05" => {
            v.push(Race {
                write: true,
                ..race(
                    "two publishers",
                    3,
                    script![join(0, "r"), subd(0, 1, &[("t", 1)]), join(1, "a"), join(2, "b")],
                    vec![
                        script![sends(1, &[pub0("t", "a1"), publ("t", 1, 1, "a2"), pub0("t", "a3")])],
                        script![send(2, pub0("t", "b1")), send(2, publ("t", 2, 1, "b2"))],
                    ],
                    vec![],
                )
            });
            v.push(race(
                "reader changes its subscription",
                2,
                script![join(0, "r"), subd(0, 1, &[("t", 1)]), join(1, "a")],
                vec![
                    script![sends(1, &[pub0("t", "1"), publ("t", 1, 1, "2")]), send(1, pub0("t", "3"))],
                    script![sends(0, &[sub(2, &[("t", 0)]), sub(3, &[("#", 2)])])],
                ],
                vec![],
            ));
            v.push(race(
                "reader stops and goes on",
                2,
                script![join(0, "r"), subd(0, 1, &[("t", 1)]), join(1, "a"), window(0, Some(3))],
                vec![
                    script![sends(1, &[pub0("t", "1"), publ("t", 1, 1, "2")]), send(1, pub0("t", "3"))],
                    script![window(0, Some(5)), window(0, None)],
                ],
                vec![],
            ));
        }
        "C22" => {
            v.push(race(
                "answer",
                4,
                script![join(0, "o"), subd(0, 1, &[("#", 1)]), join(1, "b"), subd(1, 1, &[("t", 1)]), join(2, "a"), join(3, "o2"), subd(3, 1, &[("+", 0)])],
                vec![
                    script![send(2, publ("t", 1, 1, "message"))],
                    script![await_pubs(1, 1), send(1, publ("u", 1, 1, "answer"))],
                ],
                script![send(2, pub0("t", "end"))],
            ));
            v.push(race(
                "two answers",
                4,
                script![join(0, "o"), subd(0, 1, &[("t", 0), ("u", 2), ("v", 1)]), join(1, "b"), subd(1, 1, &[("t", 0)]), join(2, "a"), subd(2, 1, &[("u", 1)]), join(3, "d")],
                vec![
                    script![send(2, pub0("t", "message")), await_pubs(2, 1), send(2, pub0("v", "answer to the answer"))],
                    script![await_pubs(1, 1), send(1, publ("u", 1, 1, "answer"))],
                ],
                script![send(2, pub0("t", "end"))],
            ));
        }
        "C06" => {
            for (nm, q) in [("subscribe against a stream, QoS 0", 0u8), ("subscribe against a stream, QoS 1", 1)] {
                v.push(race(
                    nm,
                    3,
                    script![join(0, "r"), join(1, "p"), join(2, "o"), subd(2, 1, &[("#", 0)])],
                    vec![
                        script![send(0, sub(1, &[("t", 1)])), await_n(0, suback(1, &[1]), 1), send(1, publ("t", q, 8, "after"))],
                        script![sends(1, &[publ("t", q, 1, "1"), publ("t", q, 2, "2")])],
                    ],
                    script![send(1, pub0("t", "end"))],
                ));
            }
            v.push(race(
                "unsubscribe against a stream",
                3,
                script![join(0, "r"), subd(0, 1, &[("t", 1), ("#", 0)]), join(1, "p"), join(2, "q")],
                vec![
                    script![send(0, unsub(2, &["t"])), await_n(0, S::UnsubAck(2), 1), send(2, pub0("t", "after")), send(0, unsub(3, &["#"]))],
                    script![sends(1, &[pub0("t", "1"), publ("t", 1, 2, "2")]), send(1, pub0("t", "3"))],
                ],
                script![send(1, pub0("t", "end"))],
            ));
            v.push(race(
                "acknowledged, then heard of",
                3,
                script![join(0, "r"), subd(0, 1, &[("t", 1)]), join(1, "p"), join(2, "q")],
                vec![
                    script![
                        send(1, publ("t", 1, 1, "first")),
                        await_n(1, S::PubAck(1), 1),
                        send(2, publ("t", 1, 1, "second"))
                    ],
                    script![sends(0, &[C::Ping, sub(7, &[("u", 1)])])],
                ],
                vec![],
            ));
        }
        "C08" => {
            v.push(race(
                "two publishers with one identifier",
                3,
                script![join(0, "r"), subd(0, 1, &[("t", 2)]), join(1, "a"), join(2, "b")],
                vec![
                    script![send(1, publ("t", 2, 5, "a")), sends(1, &[publ("t", 2, 5, "a"), C::PubRel(5)]), send(1, publ("t", 2, 5, "a'"))],
                    script![send(2, publ("t", 2, 5, "b")), send(2, C::PubRel(5))],
                ],
                vec![],
            ));
            v.push(race(
                "the publisher is also the receiver",
                1,
                script![join(0, "r"), subd(0, 1, &[("t", 2)])],
                vec![
                    script![sends(0, &[publ("t", 2, 1, "x"), publ("t", 2, 1, "x")]), sends(0, &[C::PubRel(1), publ("t", 2, 1, "y"), C::PubRel(1)])],
                ],
                vec![],
            ));
        }
        "C11" => v.push(race(
            "first packets",
            3,
            script![],
            vec![
                script![open(0), sends(0, &[conn("a"), C::Ping, conn("a")])],
                script![open(1), sends(1, &[C::Ping, conn("b")])],
                script![open(2), send(2, pconn("c")), send(2, C::Disconnect)],
            ],
            vec![],
        )),
        "C12" => {
            v.push(Race { heavy: true, ..race(
                "takeover of a busy connection",
                4,
                script![join(0, "x"), subd(0, 1, &[("t", 1)]), join(1, "p")],
                vec![
                    script![sends(0, &[sub(2, &[("u", 0)]), publ("t", 1, 3, "own")])],
                    script![open(2), sends(2, &[conn("x"), sub(1, &[("t", 0)])])],
                    script![send(1, publ("t", 1, 1, "p1")), send(1, pub0("u", "p2"))],
                ],
                script![sends(1, &[pub0("t", "late"), pub0("u", "late")])],
            ) });
            v.push(race(
                "takeover of a persistent session",
                4,
                script![pjoin(0, "x"), subd(0, 1, &[("t", 1)]), join(1, "p")],
                vec![
                    script![sends(0, &[unsub(2, &["t"]), sub(3, &[("u", 1)])])],
                    script![open(2), send(2, pconn("x"))],
                    script![send(1, publ("t", 1, 1, "p1"))],
                ],
                script![await_connack(2), sends(1, &[pub0("t", "late"), pub0("u", "late")])],
            ));
            v.push(Race { heavy: true, ..race(
                "three at once",
                4,
                script![join(3, "p")],
                vec![
                    script![open(0), sends(0, &[pconn("x"), sub(1, &[("t", 1)])])],
                    script![open(1), sends(1, &[conn("x"), sub(1, &[("u", 1)])])],
                    script![open(2), sends(2, &[pconn("x"), sub(1, &[("v", 1)])])],
                ],
                script![sends(3, &[pub0("t", "1"), pub0("u", "2"), pub0("v", "3")])],
            ) });
            v.push(race(
                "end and takeover",
                3,
                script![join(0, "x"), subd(0, 1, &[("t", 1)]), join(1, "p")],
                vec![
                    script![eof(0)],
                    script![open(2), sends(2, &[conn("x"), sub(1, &[("t", 0)])])],
                ],
                script![send(1, pub0("t", "1"))],
            ));
        }
        "C13" => {
            v.push(race(
                "away and back",
                4,
                script![pjoin(0, "x"), subd(0, 1, &[("t", 1)]), join(1, "p")],
                vec![
                    script![send(0, C::Disconnect), open(2), send(2, pconn("x")), await_connack(2), send(2, sub(2, &[("u", 1)]))],
                    script![send(1, publ("t", 1, 1, "1")), send(1, pub0("u", "2"))],
                ],
                script![sends(1, &[pub0("t", "3"), pub0("u", "4")])],
            ));
            v.push(race(
                "clean and kept in turns",
                4,
                script![pjoin(0, "x"), subd(0, 1, &[("t", 1)]), join(1, "p")],
                vec![
                    script![eof(0), open(2), sends(2, &[conn("x"), sub(1, &[("u", 0)])]), await_connack(2), send(2, C::Disconnect), open(3), send(3, pconn("x"))],
                ],
                script![await_connack(3), sends(1, &[pub0("t", "3"), pub0("u", "4")])],
            ));
        }
        "C14" => v.push(Race {
            probe: true,
            ..race(
                "one breaks",
                3,
                script![join(0, "v"), subd(0, 1, &[("t", 1)]), join(1, "x"), subd(1, 1, &[("t", 1)]), join(2, "p")],
                vec![
                    script![raw(1, vec![0x30, 20, 0]), reset(1)],
                    script![send(2, publ("t", 1, 1, "1")), send(2, pub0("t", "2"))],
                    script![sends(0, &[C::Ping, sub(2, &[("u", 0)])])],
                ],
                vec![],
            )
        }),
        "C15" => v.push(Race {
            probe: true,
            ..race(
                "a stalled reader",
                3,
                script![
                    join(0, "st"),
                    subd(0, 1, &[("t", 1)]),
                    join(1, "ok"),
                    subd(1, 1, &[("t", 0)]),
                    join(2, "p"),
                    window(0, Some(0)),
sends(2, &[pub0("t", "x"), pub0("t", "y")])
                ],
                vec![
                    script![sends(2, &[pub0("t", "a"), pub0("t", "b"), publ("t", 1, 1, "c"), pub0("t", "d")])],
                    script![window(0, Some(30)), window(0, None)],
                    script![send(1, C::Ping)],
                ],
                vec![],
            )
        }),
        "C18" => {
            v.push(Race {
                oracle: Some(super::load::stats_oracle()),
                ..race(
                    "packets and ends",
                    3,
                    script![join(0, "r"), subd(0, 1, &[("t", 1)]), join(1, "a"), Step::Quiet, Step::Stats],
                    vec![
                        script![sends(1, &[publ("t", 1, 1, "1"), C::Ping]), send(1, C::Disconnect)],
                        script![open(2), sends(2, &[conn("b"), pub0("t", "2")]), eof(2)],
                    ],
                    script![Step::Quiet, Step::Stats],
                )
            });
        }
        "C20" => v.push(race(
            "the same name in and out of a group",
            3,
            script![join(0, "x"), join(1, "y"), join(2, "p"), subd(0, 9, &[("$share/g/a", 1)])],
            vec![
                script![sends(0, &[unsub(1, &["$share/g/a"]), sub(2, &[("a", 1)])])],
                script![sends(1, &[sub(1, &[("$share/g/a", 0), ("a", 2)]), unsub(2, &["$share/g/a"])])],
                script![sends(2, &[pub0("$share/g/a", "1"), pub0("a", "2")])],
            ],
            script![sends(2, &[pub0("$share/g/a", "3"), pub0("a", "4")])],
        )),
        "C17" => v.push(Race {
            oracle: Some(Arc::new(|r, bad| {
                monitor(r, Opt { time: true, ..Opt::default() }, bad);
                if r.end == End::Exited {
                    for (c, o) in r.obs.conns.iter().enumerate() {
                        if o.accepted && !o.dropped {
                            bad.push(format!("c{c} is not closed at exit"));
                        }
                    }
                }
            })),
            ..race(
                "the signal",
                4,
                script![join(0, "a"), subd(0, 1, &[("t", 1)]), pjoin(1, "b"), window(1, Some(0)), subd_unread(1)],
                vec![
                    script![sends(0, &[publ("t", 1, 1, "1"), C::Ping]), eof(0)],
                    script![open(2), send(2, conn("b"))],
                    script![Step::CtrlC],
                ],
                vec![],
            )
        }),
        _ => {}
    }
    v
}

fn subd_unread(c: usize) -> Vec<Step> {
    script![send(c, sub(1, &[("t", 1)]))]
}
