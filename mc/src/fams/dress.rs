//! Details that must not matter: clients announce wills, user names and passwords, publish with RETAIN
//! and DUP or at another QoS, have other identifiers, take their time, and do the same with other topics. The scenarios of
//! a property take turns in them.

use crate::codec::*;
use crate::engine::*;
use crate::scen::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;

/// Properties with few, large histories.
const SPLIT: [&str; 8] = ["C02", "C04", "C06", "C07", "C08", "C13", "C18", "C20"];

/// A history with every choice of the first two operations on its own, so that each has its own dress.
fn singly(s: &Scenario) -> Vec<Scenario> {
    let at: Vec<usize> = (0..s.actors[0].len()).filter(|k| matches!(s.actors[0][*k], Step::Branch(_))).take(2).collect();
    let size = |k: &usize| match &s.actors[0][*k] {
        Step::Branch(b) => b.len(),
        _ => 0,
    };
    let mut at = &at[..];
    while at.iter().map(size).product::<usize>() > 400 {
        at = &at[..at.len() - 1];
    }
    let mut out = vec![s.clone()];
    // from the last on, the positions before stay the same
    for k in at.iter().rev() {
        let mut next = vec![];
        for s in out {
            let Step::Branch(b) = &s.actors[0][*k] else { unreachable!() };
            for (i, w) in b.iter().enumerate() {
                let mut x = s.clone();
                x.actors[0].splice(*k..=*k, w.clone());
                x.name = format!("{} /{i}", s.name);
                x.parts = 1;
                next.push(x);
            }
        }
        out = next;
    }
    out
}

pub fn dress(id: &str, scenarios: &mut Vec<Scenario>) {
    let plain_ones = scenarios.len();
    let mut as_is = vec![];
    for i in 0..plain_ones {
        let s = &scenarios[i];
        if SPLIT.contains(&id) && alone(s) && s.budget == 0 && s.actors[0].iter().any(|x| matches!(x, Step::Branch(_))) {
            let v = singly(s);
            as_is.push(s.clone());
            scenarios[i].parts = 0;
            scenarios.extend(v);
        }
    }
    for (i, s) in scenarios.iter_mut().enumerate() {
        // (split)
        if s.parts == 0 {
            continue;
        }
        let original = s.clone();
        let mut d = Dress { turn: i, below: "", raise: 0, next: 20_000, wait: 0, stretch: 0, pad: 0, chat: false, guest: None, sent: HashSet::new(), padded: HashSet::new(), open: BTreeSet::new(), pauses: 0 };
        // all topics and filters below another level, or in a group
        if matches!(id, "C02" | "C04" | "C05" | "C06" | "C07" | "C08" | "C12" | "C13" | "C14" | "C17" | "C18" | "C22") && s.actors.iter().all(|a| plain(a)) {
            d.below = ["", "", "$share/g/", "é/$/"][mix(i, 1) % 4];
        }
        // messages published at QoS 0
        if matches!(id, "C01" | "C05" | "C06" | "C12" | "C13" | "C14" | "C20") && s.actors.iter().map(|a| zeros(a)).sum::<usize>() < 4000 {
            d.raise = [0, 0, 1, 2][mix(i, 2) % 4];
        }
        // time passes whenever all is quiet
        if !matches!(id, "C16" | "C17") && alone(s) && s.actors.iter().all(|a| patient(a)) {
            s.patient = true;
            d.wait = [0, 4_000, 61_000, 0, 8_000_000, 3_000_000_000][mix(i, 3) % 6];
            // one of the clients does something else in every pause
            let small = s.actors.iter().map(|a| volume(a)).collect::<Option<Vec<usize>>>().is_some_and(|v| v.iter().sum::<usize>() < 8000);
            d.chat = small && (i >= plain_ones || mix(i, 6) % 2 == 0);
            // and once another client comes by
            if d.chat && mix(i, 8) % 2 == 0 {
                d.guest = Some((s.conn(), mix(i, 9) % 4));
            }
        }
        // long names, large messages
        if !matches!(id, "C03" | "C15" | "C16" | "C19") {
            let sizes: Option<Vec<usize>> = s.actors.iter().map(|a| volume(a)).collect();
            if sizes.is_some_and(|v| v.iter().sum::<usize>() < 4000) {
                d.stretch = [0, 0, 0, 300, 0, 1_100, 0, 5_000][mix(i, 4) % 8];
                d.pad = [0, 0, 66_000, 0, 0, 9_000, 0, 0][mix(i, 5) % 8];
            }
        }
        // such scenarios are judged as they are, too
        if i < plain_ones && s.budget == 0 && (d.below, d.raise, d.wait, d.stretch, d.pad, d.chat) != ("", 0, 0, 0, 0, false) {
            s.name += " *";
            as_is.push(original);
        }
        for a in &mut s.actors {
            *a = d.steps(a);
        }
    }
    scenarios.retain(|s| s.parts > 0);
    scenarios.extend(as_is);
}

fn alone(s: &Scenario) -> bool {
    s.actors.len() == 1 || s.actors.len() == 2 && matches!(&s.actors[1][..], [Step::Wait(l, _), ..] if l.ends_with("clients to finish"))
}

/// A number that depends on both.
fn mix(i: usize, k: u64) -> usize {
    let mut z = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(k.wrapping_mul(0xd1b5_4a32_d192_ed03));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (z ^ (z >> 31)) as usize >> 8
}

fn packets(b: &[u8]) -> Option<Vec<C>> {
    let mut out = vec![];
    let mut at = 0;
    while at < b.len() {
        let (f, body, n) = split(&b[at..])?.ok()?;
        let p = dec_c(f, body).ok()?;
        if p.enc() != b[at..at + n] {
            return None;
        }
        out.push(p);
        at += n;
    }
    Some(out)
}

/// Only whole packets are sent, and no names that are special.
fn plain(v: &[Step]) -> bool {
    let ok = |n: &str| n.len() < 60_000 && n.matches('/').count() < 150 && !n.starts_with('$') && !n.is_empty();
    v.iter().all(|s| match s {
        Step::Send(_, b) => packets(b).is_some_and(|ps| {
            ps.iter().all(|p| match p {
                C::Publish { topic, .. } => ok(topic),
                C::Subscribe(_, fs) => fs.iter().all(|f| ok(&f.0)),
                C::Unsubscribe(_, fs) => fs.iter().all(|f| ok(f)),
                _ => true,
            })
        }),
        Step::Branch(b) => b.iter().all(|w| plain(w)),
        _ => true,
    })
}

/// Nobody minds when time passes: there is no keep-alive, and every CONNECT comes right away.
fn patient(v: &[Step]) -> bool {
    fn connects(s: Option<&Step>) -> bool {
        match s {
            Some(Step::Send(_, b)) => packets(b).is_some_and(|p| matches!(p.first(), Some(C::Connect(x)) if x.keepalive == 0 && x.level == 4 && (x.clean || !x.id.is_empty()))),
            Some(Step::Branch(b)) => b.iter().all(|w| connects(w.first())),
            _ => false,
        }
    }
    v.iter().enumerate().all(|(i, s)| match s {
        Step::Open(_) => connects(v.get(i + 1)),
        Step::Send(_, b) => packets(b).is_some_and(|ps| ps.iter().all(|p| !matches!(p, C::Connect(x) if x.keepalive > 0))),
        Step::Branch(b) => b.iter().all(|w| patient(w)),
        Step::AcceptFail(_) | Step::Advance(_) | Step::CtrlC | Step::Heap => false,
        _ => true,
    })
}

/// How many bytes are sent, if they are whole packets with names of few levels.
fn volume(v: &[Step]) -> Option<usize> {
    let few = |n: &str| n.matches('/').count() < 10;
    let all = |p: &C| match p {
        C::Publish { topic, .. } => few(topic),
        C::Subscribe(_, fs) => fs.iter().all(|f| few(&f.0)),
        C::Unsubscribe(_, fs) => fs.iter().all(|f| few(f)),
        _ => true,
    };
    v.iter()
        .map(|s| match s {
            Step::Send(_, b) => packets(b).filter(|p| p.iter().all(all)).map(|_| b.len()),
            Step::Branch(b) => b.iter().map(|w| volume(w)).sum(),
            Step::Window(_, Some(n)) if *n > 0 => None,
            Step::Heap | Step::Make(..) => None,
            _ => Some(0),
        })
        .sum()
}

/// Messages at QoS 0.
fn zeros(v: &[Step]) -> usize {
    v.iter()
        .map(|s| match s {
            Step::Send(_, b) => packets(b).map_or(0, |ps| ps.iter().filter(|p| matches!(p, C::Publish { qos: 0, .. })).count()),
            Step::Branch(b) => b.iter().map(|w| zeros(w)).sum(),
            _ => 0,
        })
        .sum()
}

struct Dress {
    turn: usize,
    /// what all topics and filters are put below
    below: &'static str,
    /// the QoS of messages at QoS 0
    raise: u8,
    /// their packet ids
    next: u16,
    /// how long every pause takes
    wait: u64,
    /// by how much every level of a name is longer
    stretch: usize,
    /// by how much the first message of a connection is
    pad: usize,
    /// connections on which something has been sent
    sent: HashSet<usize>,
    /// connections on which a large message has been published
    padded: HashSet<usize>,
    /// whether clients do something else in the pauses
    chat: bool,
    /// the connection of a client that comes by, and what it does
    guest: Option<(usize, usize)>,
    /// connections that are open and known to the broker
    open: BTreeSet<usize>,
    pauses: usize,
}

impl Dress {
    fn steps(&mut self, v: &[Step]) -> Vec<Step> {
        let mut out = vec![];
        for s in v {
            match s {
                Step::Send(c, b) => {
                    let first = self.sent.insert(*c);
                    if let Some(ps) = packets(b) {
                        if first && matches!(ps[..], [C::Connect(_), ..]) {
                            self.open.insert(*c);
                        } else if ps.iter().any(|p| matches!(p, C::Connect(_))) {
                            self.open.remove(c);
                        }
                        if ps.iter().any(|p| matches!(p, C::Disconnect)) {
                            self.open.remove(c);
                        }
                    } else {
                        self.open.remove(c);
                    }
                    out.push(match self.bytes(*c, first, b) {
                        Some(n) => Step::Send(*c, Arc::new(n)),
                        None => s.clone(),
                    });
                }
                Step::Eof(c) | Step::Gone(c) | Step::Reset(c, _) | Step::Window(c, _) => {
                    self.open.remove(c);
                    out.push(s.clone());
                }
                Step::Quiet => {
                    out.push(Step::Quiet);
                    if self.wait > 0 {
                        out.push(Step::Advance(self.wait));
                        out.push(Step::Quiet);
                    }
                    self.pauses += 1;
                    if self.chat {
                        self.chat(&mut out);
                    }
                }
                Step::Branch(b) => {
                    // each alternative may be what starts or ends the connection
                    let (before, open, pauses, guest) = (self.sent.clone(), self.open.clone(), self.pauses, self.guest);
                    let mut after = before.clone();
                    let mut left: Option<BTreeSet<usize>> = None;
                    let mut came = guest;
                    let alternatives = b
                        .iter()
                        .map(|w| {
                            self.sent = before.clone();
                            self.open = open.clone();
                            self.pauses = pauses;
                            self.guest = guest;
                            let r = self.steps(w);
                            after.extend(self.sent.iter());
                            left = Some(match left.take() {
                                Some(l) => &l & &self.open,
                                None => self.open.clone(),
                            });
                            came = came.and(self.guest);
                            r
                        })
                        .collect();
                    self.sent = after;
                    self.open = left.unwrap_or(open);
                    self.guest = came;
                    out.push(Step::Branch(Arc::new(alternatives)));
                }
                s => out.push(s.clone()),
            }
        }
        out
    }

    fn chat(&mut self, out: &mut Vec<Step>) {
        let k = mix(self.turn, 20 + self.pauses as u64);
        if let Some((c, what)) = self.guest {
            if self.pauses % 4 == 1 + self.turn % 3 {
                self.guest = None;
                let own = |n: &str| format!("{}{n}", self.below);
                out.push(Step::Open(c));
                let x = connect("guest");
                out.push(send(c, C::Connect(if what % 2 == 0 { x } else { x.persistent() })));
                out.push(Step::Quiet);
                out.push(send(c, C::Subscribe(1, vec![(own("#"), 2), (own("zz/+"), 0)])));
                out.push(Step::Quiet);
                out.push(send(c, publ(&own("zz/of a guest"), 2, 1, "a guest's")));
                out.push(Step::Quiet);
                out.extend(match what {
                    0 => vec![send(c, C::Disconnect), Step::Quiet],
                    1 => vec![Step::Reset(c, std::io::ErrorKind::ConnectionReset), Step::Quiet],
                    2 => vec![],
                    _ => vec![Step::Eof(c), Step::Quiet],
                });
            }
        }
        let Some(c) = self.open.iter().nth(k / 16 % self.open.len().max(1)).copied() else { return };
        let pid = [1u16, 2, 9][k / 256 % 3];
        let own = |n: &str| format!("{}{n}", self.below);
        out.push(send(
            c,
            match k % 11 {
                0 => C::Ping,
                1 => C::Subscribe(pid, vec![(own("zz/zz"), 1)]),
                2 => C::Unsubscribe(pid, vec![own("zz/zz")]),
                3 => publ(&own("zz/zz"), 1, pid, "to nobody"),
                4 => publ(&own("zz/zz"), 0, 0, ""),
                5 => {
                    self.next += 1;
                    publ(&own("zz/zz"), 2, self.next, "twice")
                }
                6 => C::PubRel(60_000),
                7 => C::PubAck(60_000),
                8 => C::PubRec(60_000),
                9 => C::PubComp(60_000),
                _ => return,
            },
        ));
        out.push(Step::Quiet);
    }

    /// The bytes in other clothes, if they are whole packets.
    fn bytes(&mut self, c: usize, first: bool, b: &[u8]) -> Option<Vec<u8>> {
        let mut out = vec![];
        for (k, mut p) in packets(b)?.into_iter().enumerate() {
            match &mut p {
                C::Connect(x) if first && k == 0 => self.connect(c, x),
                C::Publish { dup, qos, retain, topic, pid, payload } => {
                    *retain |= (self.turn + c) % 4 == 3;
                    *dup |= *qos == 1 && (self.turn + c) % 4 == 1;
                    if *qos == 0 && self.raise > 0 {
                        *qos = self.raise;
                        *pid = self.next;
                        self.next += 1;
                    }
                    self.name(topic);
                    if self.pad > 0 && self.padded.insert(c) {
                        payload.resize(payload.len() + self.pad, b'.');
                    }
                }
                C::Subscribe(_, fs) => fs.iter_mut().for_each(|f| self.name(&mut f.0)),
                C::Unsubscribe(_, fs) => fs.iter_mut().for_each(|f| self.name(f)),
                _ => {}
            }
            out.extend(p.enc());
        }
        Some(out)
    }

    fn name(&self, n: &mut String) {
        if self.stretch > 0 {
            let longer = |l: &str| match l {
                "" | "+" | "#" => l.to_string(),
                l if l.starts_with('$') || l.contains(['+', '#']) => l.to_string(),
                l => format!("{l}{}", "-".repeat(self.stretch)),
            };
            *n = n.split('/').map(longer).collect::<Vec<_>>().join("/");
        }
        n.insert_str(0, self.below);
    }

    fn connect(&self, c: usize, x: &mut Connect) {
        if x.will.is_none() && x.user.is_none() && x.pass.is_none() {
            match (self.turn + c) % 4 {
                0 => {}
                1 => x.will = Some(("t".into(), b"gone".to_vec(), 0, false)),
                2 => {
                    x.user = Some("ü".into());
                    x.pass = Some(vec![0, 255, b'x']);
                }
                _ => {
                    x.will = Some(("a/b".into(), vec![], 2, true));
                    x.user = Some(String::new());
                }
            }
        }
        if !x.id.is_empty() {
            x.id.push_str(match self.turn / 4 % 3 {
                0 => "",
                1 => "/日 #+$",
                _ => "-a-client-identifier-of-more-than-twenty-three-characters",
            });
        }
    }
}
