//! The reference model: what MQTT 3.1.1 (as restricted by properties.jsonl) demands of the wire
//! log of one execution. It knows nothing of the broker but its wire. Where the order of two
//! events is not determined by the log (requests in flight at the same time), every outcome that
//! some order explains is accepted; everything else is reported.

use crate::codec::*;
use crate::engine::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// The broker may close the connection of a client for which more messages than this are waiting.
const MAX_WAITING: usize = 10_000;

pub struct Item {
    pub lo: usize,
    pub end: usize,
    pub p: Result<C, Bad>,
}

pub struct Conn {
    pub opened: Option<usize>,
    pub items: Vec<Item>,
    /// Index of the item that ends the conversation.
    pub fatal: Option<usize>,
    pub accepted: bool,
    pub id: String,
    pub clean: bool,
    pub connect_lo: usize,
    pub connack: Option<usize>,
    pub eof: Option<usize>,
    pub loss: Option<usize>,
    /// when the client reads only up to some number of bytes
    pub stalls: Vec<(usize, usize)>,
    /// it was closed while more messages than the broker has to keep were waiting for it
    pub overload: Option<usize>,
    pub superseded: Option<usize>,
    pub dropped: Option<usize>,
    pub wfail: Option<usize>,
    pub out: Vec<(usize, S)>,
    /// log index of the response to item i
    pub resp: Vec<Option<usize>>,
    /// what arrives from here on may make the broker close (hopeless incomplete frame)
    pub may_close: Option<usize>,
    pub reads: Vec<(usize, usize)>,
}

#[derive(Clone, Debug)]
enum What {
    Set(String, u8),
    Clear(String),
    ClearAll,
}
#[derive(Clone, Debug)]
struct Op {
    lo: usize,
    hi: usize,
    certain: bool,
    conn: usize,
    /// program order within the connection
    po: (usize, usize),
    what: What,
}

pub struct Msg {
    pub conn: usize,
    pub item: usize,
    pub topic: String,
    pub qos: u8,
    pub payload: Vec<u8>,
    pub lo: usize,
    pub hi: usize,
    pub certain: bool,
}

pub struct Model {
    pub conns: Vec<Conn>,
    pub msgs: Vec<Msg>,
    pub ctrlc: Option<usize>,
    pub quiets: Vec<usize>,
    pub len: usize,
    rank: Vec<usize>,
}

#[derive(Clone, Copy)]
pub struct Opt {
    /// Time passes in the scenario: idle connections may be closed (judged elsewhere).
    pub time: bool,
    /// Judge takeovers leniently: the order in which the broker sees two CONNECTs is open.
    pub closes: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { time: false, closes: true }
    }
}

pub const SESSION: &str = "\0session";

/// Of two connections with one client identifier: did the broker see the CONNECT of `x` first?
fn older(x: &Conn, y: &Conn) -> bool {
    match (x.connack, y.connack) {
        (Some(i), Some(j)) => i < j,
        // y may have been taken over before it got its CONNACK
        (Some(i), None) => i < y.connect_lo || y.dropped.map_or(true, |d| x.dropped.is_some_and(|e| e < d)),
        (None, Some(_)) => !older(y, x),
        _ => x.connect_lo < y.connect_lo,
    }
}

/// Did the broker certainly see the CONNECT of `x` before that of `y`?
fn surely_older(x: &Conn, y: &Conn) -> bool {
    x.connack.is_some_and(|i| i < y.connect_lo) || x.dropped.is_some_and(|i| i < y.connect_lo)
}

impl Model {
    pub fn new(run: &Run) -> Model {
        Model::ordered(run, vec![])
    }
    /// Where the execution leaves open which of two CONNECTs came first, `rank` decides, if given.
    fn ordered(run: &Run, rank: Vec<usize>) -> Model {
        let n = run.obs.conns.len();
        let log = &run.log;
        let mut quiets = vec![];
        let mut ctrlc = None;
        let mut conns: Vec<Conn> = (0..n)
            .map(|_| Conn {
                opened: None,
                items: vec![],
                fatal: None,
                accepted: false,
                id: String::new(),
                clean: true,
                connect_lo: usize::MAX,
                connack: None,
                eof: None,
                loss: None,
                stalls: vec![],
                overload: None,
                superseded: None,
                dropped: None,
                wfail: None,
                out: vec![],
                resp: vec![],
                may_close: None,
                reads: vec![],
            })
            .collect();
        let mut bufs: Vec<Vec<u8>> = vec![vec![]; n];
        let mut offs = vec![0usize; n];
        let mut dead = vec![false; n];
        let mut rd = vec![0usize; n];
        for (i, (_, e)) in log.iter().enumerate() {
            match e {
                Ev::Quiet => quiets.push(i),
                Ev::CtrlC => ctrlc = ctrlc.or(Some(i)),
                Ev::Open(c) => conns[*c].opened = Some(i),
                Ev::Eof(c) => {
                    conns[*c].eof.get_or_insert(i);
                }
                Ev::Gone(c) | Ev::Reset(c) => {
                    conns[*c].loss.get_or_insert(i);
                }
                Ev::Window(c, Some(_)) => {
                    let v = &mut conns[*c].stalls;
                    if v.last().is_none_or(|s| s.1 != usize::MAX) {
                        v.push((i, usize::MAX));
                    }
                }
                Ev::Window(c, None) => {
                    if let Some(s) = conns[*c].stalls.last_mut() {
                        s.1 = s.1.min(i);
                    }
                }
                Ev::Dropped(c) => conns[*c].dropped = Some(i),
                Ev::WriteFailed(c) => {
                    conns[*c].wfail.get_or_insert(i);
                }
                Ev::Out(c, s) => conns[*c].out.push((i, s.clone())),
                Ev::Read(c, k) => {
                    rd[*c] += k;
                    conns[*c].reads.push((i, rd[*c]));
                }
                Ev::Sent(c, b) => {
                    let c = *c;
                    // bytes sent after the client closed its side do not exist
                    if dead[c] || conns[c].eof.is_some() || conns[c].loss.is_some() {
                        continue;
                    }
                    bufs[c].extend_from_slice(b);
                    let mut at = 0;
                    loop {
                        let b = &bufs[c][at..];
                        match split(b) {
                            None => {
                                let first = conns[c].items.is_empty();
                                if conns[c].may_close.is_none()
                                    && !b.is_empty()
                                    && (hopeless_prefix(b) || (first && b[0] != 0x10))
                                {
                                    conns[c].may_close = Some(i);
                                }
                                break;
                            }
                            Some(Err(())) => {
                                conns[c].items.push(Item {
                                    lo: i,
                                    end: offs[c] + at + 5,
                                    p: Err(Bad::Malformed("length")),
                                });
                                conns[c].fatal = Some(conns[c].items.len() - 1);
                                dead[c] = true;
                                break;
                            }
                            Some(Ok((f, body, used))) => {
                                let p = dec_c(f, body);
                                at += used;
                                let k = conns[c].items.len();
                                let end = offs[c] + at;
                                let fatal = match (&p, k) {
                                    (Err(_), _) => true,
                                    (Ok(C::Connect(_)), 0) => false,
                                    (_, 0) => true,
                                    (Ok(C::Connect(_)), _) => true,
                                    (Ok(C::Disconnect), _) => true,
                                    _ => false,
                                };
                                if let (Ok(C::Connect(x)), 0) = (&p, k) {
                                    conns[c].accepted = true;
                                    conns[c].id = if x.id.is_empty() { format!("\0anon{c}") } else { x.id.clone() };
                                    conns[c].clean = x.clean;
                                    conns[c].connect_lo = i;
                                }
                                conns[c].items.push(Item { lo: i, end, p });
                                if fatal {
                                    conns[c].fatal = Some(k);
                                    dead[c] = true;
                                    break;
                                }
                            }
                        }
                    }
                    bufs[c].drain(..at);
                    offs[c] += at;
                }
                _ => {}
            }
        }
        for c in 0..n {
            conns[c].connack = conns[c].out.first().map(|x| x.0);
        }
        // takeovers
        for a in 0..n {
            for b in 0..n {
                if a != b && conns[a].accepted && conns[b].accepted && conns[a].id == conns[b].id {
                    let (x, y) = (&conns[a], &conns[b]);
                    let older = if rank.is_empty() { older(x, y) } else { rank[a] < rank[b] };
                    if older && x.dropped.map_or(true, |d| d > y.connect_lo) {
                        let lo = y.connect_lo.max(x.connect_lo);
                        let s = conns[a].superseded.get_or_insert(lo);
                        *s = (*s).min(lo);
                    }
                }
            }
        }
        let mut m = Model { conns, msgs: vec![], ctrlc, quiets, len: log.len(), rank };
        m.collect_msgs();
        m.find_overloads();
        m
    }

    /// Connections closed with more than `MAX_WAITING` messages waiting.
    fn find_overloads(&mut self) {
        if self.msgs.len() <= MAX_WAITING {
            return;
        }
        let ops = self.ops();
        for c in 0..self.conns.len() {
            let x = &self.conns[c];
            let (Some(d), Some(o)) = (x.dropped, ops.get(&x.id)) else { continue };
            let mut filters: Vec<&str> = o
                .iter()
                .filter_map(|o| match &o.what {
                    What::Set(f, _) if f != SESSION => Some(f.as_str()),
                    _ => None,
                })
                .collect();
            filters.sort();
            filters.dedup();
            // +1 as a message arrives, -1 as one is delivered
            let mut moves: Vec<(usize, isize)> = self
                .msgs
                .iter()
                .filter(|g| {
                    g.lo < d
                        && filters.iter().any(|f| {
                            matches(f, &g.topic)
                                && Model::values(o, f, g.lo, g.hi, Some((g.conn, g.item))).iter().any(|v| v.is_some())
                        })
                })
                .map(|g| (g.lo, 1))
                .collect();
            moves.extend(x.out.iter().filter(|(i, s)| *i < d && matches!(s, S::Publish { .. })).map(|(i, _)| (*i, -1)));
            moves.sort();
            // the broker closes the connection as soon as too many wait: without getting idle in between
            let from = self.quiets[..self.quiets.partition_point(|&q| q < d)].last().copied().unwrap_or(0);
            let mut waiting = 0;
            let mut first = None;
            for (i, by) in moves {
                waiting += by;
                if waiting > MAX_WAITING as isize && i > from {
                    first.get_or_insert(i);
                }
            }
            self.conns[c].overload = first;
        }
        // what they sent may not have taken effect
        for k in 0..self.msgs.len() {
            let g = &self.msgs[k];
            if self.conns[g.conn].overload.is_some() {
                self.msgs[k].certain = self.certain(g.conn, g.item);
            }
        }
    }

    /// When whatever reached the broker from or for `c` at `i` has been dealt with.
    pub fn quiet_of(&self, c: usize, i: usize) -> usize {
        let x = &self.conns[c];
        let end = x.dropped.unwrap_or(usize::MAX).min(x.loss.unwrap_or(usize::MAX));
        let mut q = self.next_quiet(i);
        for s in &x.stalls {
            if s.0 < q && q < s.1 {
                // stuck until the client reads, or the connection ends
                let go = s.1.min(end);
                if go == usize::MAX {
                    return self.len;
                }
                q = q.max(self.next_quiet(go));
            }
        }
        q
    }

    pub fn next_quiet(&self, i: usize) -> usize {
        let k = self.quiets.partition_point(|&q| q < i);
        self.quiets.get(k).copied().unwrap_or(self.len)
    }

    /// When something that arrived at `lo` has certainly taken effect, if nothing shows it earlier.
    fn settled(&self, c: usize, it: usize) -> usize {
        let item = &self.conns[c].items[it];
        let q = self.quiet_of(c, item.lo);
        self.conns[c].resp.get(it).copied().flatten().map_or(q, |r| r.min(q))
    }
    /// Does item `it` of `c` certainly take effect?
    fn certain(&self, c: usize, it: usize) -> bool {
        let x = &self.conns[c];
        let lo = x.items[it].lo;
        if x.resp.get(it).copied().flatten().is_some() && !matches!(x.items[it].p, Ok(C::Disconnect)) {
            return true;
        }
        let q = self.quiet_of(c, lo);
        if q == self.len {
            return false;
        }
        let lim = [x.loss, x.superseded, self.ctrlc, x.overload].into_iter().flatten().min().unwrap_or(usize::MAX);
        q < lim
    }

    fn expected(&self, c: usize) -> Vec<(usize, Option<S>)> {
        let x = &self.conns[c];
        let mut v = vec![];
        for (i, it) in x.items.iter().enumerate() {
            if i == 0 {
                match &it.p {
                    Ok(C::Connect(_)) => v.push((0, Some(S::ConnAck(false, 0)))),
                    Err(Bad::Level) => v.push((0, Some(S::ConnAck(false, 1)))),
                    Err(Bad::EmptyId) => v.push((0, Some(S::ConnAck(false, 2)))),
                    Err(Bad::Malformed(m)) if *m == ALSO_EMPTY_ID && !x.out.is_empty() => {
                        v.push((0, Some(S::ConnAck(false, 2))))
                    }
                    _ => {}
                }
                continue;
            }
            if Some(i) == x.fatal {
                break;
            }
            let r = match it.p.as_ref().unwrap() {
                C::Publish { qos: 1, pid, .. } => S::PubAck(*pid),
                C::Publish { qos: 2, pid, .. } => S::PubRec(*pid),
                C::PubRel(p) => S::PubComp(*p),
                C::PubRec(p) => S::PubRel(*p),
                C::Subscribe(p, fs) => S::SubAck(
                    *p,
                    fs.iter().map(|(f, q)| if valid_filter(f) { *q } else { 0x80 }).collect(),
                ),
                C::Unsubscribe(p, _) => S::UnsubAck(*p),
                C::Ping => S::PingResp,
                _ => continue,
            };
            v.push((i, Some(r)));
        }
        v
    }

    fn collect_msgs(&mut self) {
        for c in 0..self.conns.len() {
            let exp = self.expected(c);
            let mut resp = vec![None; self.conns[c].items.len()];
            let actual: Vec<usize> =
                self.conns[c].out.iter().filter(|x| !matches!(x.1, S::Publish { .. })).map(|x| x.0).collect();
            for (k, (i, _)) in exp.iter().enumerate() {
                if let Some(a) = actual.get(k) {
                    resp[*i] = Some(*a);
                }
            }
            self.conns[c].resp = resp;
        }
        for c in 0..self.conns.len() {
            if !self.conns[c].accepted {
                continue;
            }
            let mut in_use: HashSet<u16> = HashSet::new();
            let mut add = vec![];
            for (i, it) in self.conns[c].items.iter().enumerate() {
                if Some(i) == self.conns[c].fatal {
                    break;
                }
                match &it.p {
                    Ok(C::Publish { qos, topic, pid, payload, .. }) => {
                        if *qos == 2 && !in_use.insert(*pid) {
                            continue;
                        }
                        add.push(Msg {
                            conn: c,
                            item: i,
                            topic: topic.clone(),
                            qos: *qos,
                            payload: payload.clone(),
                            lo: it.lo,
                            hi: self.settled(c, i),
                            certain: self.certain(c, i),
                        });
                    }
                    Ok(C::PubRel(p)) => {
                        in_use.remove(p);
                    }
                    _ => {}
                }
            }
            self.msgs.extend(add);
        }
    }

    /// The connections that may have taken over from `d` directly.
    fn takers(&self, d: usize) -> Vec<usize> {
        let y = &self.conns[d];
        if !y.accepted || y.superseded.is_none() {
            return vec![];
        }
        let newer = |e: usize| {
            let x = &self.conns[e];
            e != d
                && x.accepted
                && x.id == y.id
                && (if self.rank.is_empty() { older(y, x) } else { self.rank[d] < self.rank[e] })
                && y.dropped.map_or(true, |t| t > x.connect_lo)
        };
        let all: Vec<usize> = (0..self.conns.len()).filter(|e| newer(*e)).collect();
        all.iter()
            .copied()
            .filter(|e| {
                // nobody took over from d before e connected
                !all.iter().any(|f| self.conns[*f].connack.is_some_and(|k| k < self.conns[*e].connect_lo))
            })
            .collect()
    }

    fn ops(&self) -> HashMap<String, Vec<Op>> {
        let mut m: HashMap<String, Vec<Op>> = HashMap::new();
        for (c, x) in self.conns.iter().enumerate() {
            if !x.accepted {
                continue;
            }
            let v = m.entry(x.id.clone()).or_default();
            let chi = x.connack.unwrap_or_else(|| self.next_quiet(x.connect_lo));
            let connected = x.connack.is_some();
            // does a clean session of an older connection end here?
            let mut takes_clean = false;
            let mut surely = x.clean;
            for d in 0..self.conns.len() {
                if self.conns[d].clean {
                    let t = self.takers(d);
                    if t.contains(&c) {
                        takes_clean = true;
                        surely |= t.len() == 1 && self.conns[d].connack.is_some();
                    }
                }
            }
            if x.clean || takes_clean {
                v.push(Op {
                    lo: x.connect_lo,
                    hi: chi,
                    certain: connected && surely,
                    conn: c,
                    po: (0, 0),
                    what: What::ClearAll,
                });
            }
            if !x.clean {
                v.push(Op {
                    lo: x.connect_lo,
                    hi: chi,
                    certain: connected,
                    conn: c,
                    po: (0, 1),
                    what: What::Set(SESSION.into(), 0),
                });
            }
            // a request of a connection that was taken over takes effect before that or never
            let t = self.takers(c);
            let cap = if !t.is_empty() && t.iter().all(|e| x.connack.is_some_and(|k| k < self.conns[*e].connect_lo)) {
                t.iter().map(|e| self.conns[*e].connack.unwrap_or(usize::MAX)).max().unwrap()
            } else {
                usize::MAX
            };
            for (i, it) in x.items.iter().enumerate() {
                if Some(i) == x.fatal || it.lo > cap {
                    break;
                }
                let (hi, certain) = (self.settled(c, i).min(cap), self.certain(c, i));
                match &it.p {
                    Ok(C::Subscribe(_, fs)) => {
                        for (k, (f, q)) in fs.iter().enumerate() {
                            if valid_filter(f) {
                                v.push(Op { lo: it.lo, hi, certain, conn: c, po: (i, k), what: What::Set(f.clone(), *q) });
                            }
                        }
                    }
                    Ok(C::Unsubscribe(_, fs)) => {
                        for (k, f) in fs.iter().enumerate() {
                            v.push(Op { lo: it.lo, hi, certain, conn: c, po: (i, k), what: What::Clear(f.clone()) });
                        }
                    }
                    _ => {}
                }
            }
            if x.clean && x.superseded.is_none() {
                let end = [x.fatal.map(|f| x.items[f].lo), x.eof, x.loss].into_iter().flatten().min();
                let end = match (end, x.dropped) {
                    (Some(e), Some(d)) => Some(e.min(d)),
                    (None, d) => d,
                    (e, None) => e,
                };
                if let Some(e) = end {
                    let hi = self.quiet_of(c, e);
                    v.push(Op {
                        lo: e,
                        hi,
                        certain: hi < self.len,
                        conn: c,
                        po: (usize::MAX, 0),
                        what: What::ClearAll,
                    });
                }
            }
        }
        m
    }

    /// The values (None, or a QoS) that filter `f` may have somewhere in [lo, hi].
    fn values(ops: &[Op], f: &str, lo: usize, hi: usize, at: Option<(usize, usize)>) -> Vec<Option<u8>> {
        let rel: Vec<(&Op, Option<u8>)> = ops
            .iter()
            .filter_map(|o| match &o.what {
                What::Set(g, q) if g == f => Some((o, Some(*q))),
                What::Clear(g) if g == f => Some((o, None)),
                What::ClearAll => Some((o, None)),
                _ => None,
            })
            .collect();
        let same = |a: &Op, b: &Op| a.conn == b.conn;
        let before = |a: &Op, b: &Op| if same(a, b) { a.po < b.po } else { a.hi < b.lo };
        let op_before_m = |o: &Op| match at {
            Some((c, i)) if o.conn == c => o.po.0 < i,
            _ => o.hi < lo,
        };
        let op_after_m = |o: &Op| match at {
            Some((c, i)) if o.conn == c => o.po.0 >= i && !(o.po.0 == i),
            _ => o.lo > hi,
        };
        let mut vals: Vec<Option<u8>> = vec![];
        if !rel.iter().any(|(o, _)| o.certain && op_before_m(o)) {
            vals.push(None);
        }
        for (o, v) in &rel {
            if op_after_m(o) {
                continue;
            }
            if rel.iter().any(|(y, _)| y.certain && op_before_m(y) && before(o, y)) {
                continue;
            }
            if !vals.contains(v) {
                vals.push(*v);
            }
        }
        vals
    }
}

impl Model {
    /// Every order of the connections, as ranks, that agrees with what is certain; nothing if there is only one.
    fn orders(&self) -> Vec<Vec<usize>> {
        let n = self.conns.len();
        let mut groups: Vec<Vec<usize>> = vec![];
        for c in 0..n {
            if self.conns[c].accepted {
                match groups.iter_mut().find(|g| self.conns[g[0]].id == self.conns[c].id) {
                    Some(g) => g.push(c),
                    None => groups.push(vec![c]),
                }
            }
        }
        let mut all: Vec<Vec<usize>> = vec![vec![0; n]];
        for g in groups {
            let mut seqs: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..g.len() {
                let mut next = vec![];
                for q in &seqs {
                    for &c in &g {
                        let free = |d: usize| d == c || q.contains(&d) || !surely_older(&self.conns[d], &self.conns[c]);
                        if !q.contains(&c) && g.iter().all(|&d| free(d)) {
                            let mut x = q.clone();
                            x.push(c);
                            next.push(x);
                        }
                    }
                }
                if next.len() > 1000 {
                    return vec![];
                }
                seqs = next;
            }
            let mut next = vec![];
            for a in &all {
                for q in &seqs {
                    let mut x = a.clone();
                    for (k, c) in q.iter().enumerate() {
                        x[*c] = k;
                    }
                    next.push(x);
                }
            }
            if next.len() > 1000 {
                return vec![];
            }
            all = next;
        }
        if all.len() == 1 {
            all.clear();
        }
        all
    }
}

/// Reports everything in the execution that the properties exclude.
pub fn monitor(run: &Run, opt: Opt, bad: &mut Vec<String>) {
    if matches!(run.end, End::Diverged(_) | End::Killed) {
        return;
    }
    let m = Model::new(run);
    let mut v = vec![];
    rules(run, opt, &m, &mut v);
    if !v.is_empty() {
        // the most likely order of CONNECTs is not the only one
        for o in m.orders() {
            let mut w = vec![];
            rules(run, opt, &Model::ordered(run, o), &mut w);
            if w.is_empty() {
                return;
            }
        }
    }
    bad.extend(v);
}

fn rules(run: &Run, opt: Opt, m: &Model, bad: &mut Vec<String>) {
    let ops = m.ops();
    let empty: Vec<Op> = vec![];

    // --- each connection by itself
    for (c, x) in m.conns.iter().enumerate() {
        if x.opened.is_none() {
            continue;
        }
        let exp = m.expected(c);
        let actual: Vec<&(usize, S)> = x.out.iter().filter(|o| !matches!(o.1, S::Publish { .. })).collect();
        for (k, (i, s)) in actual.iter().enumerate() {
            let Some((it, e)) = exp.get(k) else {
                bad.push(format!("c{c} is sent {s:?}, which answers nothing"));
                break;
            };
            let e = e.as_ref().unwrap();
            let same = match (e, s) {
                (S::ConnAck(_, a), S::ConnAck(sp, b)) => {
                    if *a == 0 && *b == 0 {
                        let want = if x.clean {
                            vec![None]
                        } else {
                            let o = ops.get(&x.id).unwrap_or(&empty);
                            let o: Vec<Op> =
                                o.iter().filter(|o| !(o.conn == c && o.po == (0, 1))).cloned().collect();
                            let hi = *i;
                            Model::values(&o, SESSION, x.connect_lo, hi, Some((c, 1)))
                        };
                        let got = if *sp { Some(0) } else { None };
                        if !want.contains(&got) {
                            bad.push(format!("c{c}: CONNACK says session present = {sp}"));
                        }
                        true
                    } else {
                        a == b && !(*b != 0 && *sp)
                    }
                }
                _ => e == s,
            };
            if !same {
                bad.push(format!("c{c} is sent {s:?} where {e:?} is due"));
                break;
            }
            if *i < x.items[*it].lo {
                bad.push(format!("c{c} is sent {s:?} before its request is complete"));
            }
        }
        if let Some((_, s)) = x.out.first() {
            if !matches!(s, S::ConnAck(..)) {
                bad.push(format!("c{c}: the first packet is {s:?}, not CONNACK"));
            }
        }
        let ended = matches!(run.end, End::Exited);
        let stalled = x.stalls.last().is_some_and(|s| m.quiet_of(c, s.0) == m.len);
        let cut = x.loss.is_some() || x.superseded.is_some() || m.ctrlc.is_some() || x.overload.is_some() || stalled || ended;
        if !cut && actual.len() < exp.len() && !(opt.time && x.dropped.is_some()) {
            bad.push(format!(
                "c{c} never gets {:?}",
                exp[actual.len()].1.as_ref().unwrap()
            ));
        }
        // closing
        let must_close = [x.fatal.map(|f| x.items[f].lo), x.eof, x.loss, x.superseded].into_iter().flatten().min();
        // a loss or takeover is noticed whether the client reads or not
        let by = [
            x.fatal.map(|f| m.quiet_of(c, x.items[f].lo)),
            x.eof.map(|e| m.quiet_of(c, e)),
            x.loss.map(|e| m.next_quiet(e)),
            x.superseded.map(|e| m.next_quiet(e)),
        ]
        .into_iter()
        .flatten()
        .min()
        .unwrap_or(m.len);
        let free = |d: usize| opt.time || ended || [m.ctrlc, x.may_close, x.overload].iter().any(|k| k.is_some_and(|k| k <= d));
        match (must_close, x.dropped) {
            (Some(_), None) => {
                if opt.closes && by < m.len {
                    bad.push(format!("c{c} is not closed by the broker after {}", why(x)));
                }
            }
            (Some(e), Some(d)) => {
                if d < e && !free(d) {
                    bad.push(format!("c{c} is closed by the broker without reason"));
                } else if d > by && by < m.len && opt.closes {
                    bad.push(format!("c{c} is closed late after {}", why(x)));
                }
            }
            (None, Some(d)) => {
                if !free(d) {
                    bad.push(format!("c{c} is closed by the broker without reason"));
                }
            }
            _ => {}
        }
        if run.obs.conns[c].rest > 0 && !cut && !(opt.time && x.dropped.is_some()) {
            bad.push(format!("c{c} is left with {} bytes of an unfinished packet", run.obs.conns[c].rest));
        }
        // packet ids of deliveries
        let mut used: HashMap<u16, u8> = HashMap::new();
        let mut acks: Vec<(usize, C)> = x
            .items
            .iter()
            .filter_map(|i| match &i.p {
                Ok(p @ (C::PubAck(_) | C::PubComp(_) | C::PubRec(_))) => Some((i.lo, p.clone())),
                _ => None,
            })
            .collect();
        acks.reverse();
        for (i, s) in &x.out {
            while acks.last().is_some_and(|(l, _)| l < i) {
                match acks.pop().unwrap().1 {
                    C::PubAck(p) if used.get(&p) == Some(&1) => {
                        used.remove(&p);
                    }
                    C::PubComp(p) if used.get(&p) == Some(&2) => {
                        used.remove(&p);
                    }
                    _ => {}
                }
            }
            if let S::Publish { qos, pid, dup, retain, .. } = s {
                if *dup || *retain {
                    bad.push(format!("c{c}: delivery with dup={dup} retain={retain}"));
                }
                if *qos > 0 {
                    if *pid == 0 {
                        bad.push(format!("c{c}: QoS {qos} delivery with packet identifier 0"));
                    } else if used.insert(*pid, *qos).is_some() {
                        bad.push(format!("c{c}: packet identifier {pid} is used again while in use"));
                    }
                }
            }
        }
    }

    // --- deliveries
    let mut lineages: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (c, x) in m.conns.iter().enumerate() {
        if x.accepted {
            lineages.entry(&x.id).or_default().push(c);
        } else if x.out.iter().any(|o| matches!(o.1, S::Publish { .. })) {
            bad.push(format!("c{c} is sent a message although it is not connected"));
        }
    }
    let mut groups: HashMap<(&[u8], &[u8]), Vec<usize>> = HashMap::new();
    for (k, g) in m.msgs.iter().enumerate() {
        groups.entry((g.topic.as_bytes(), &g.payload)).or_default().push(k);
    }
    for (id, cs) in &lineages {
        let lops = ops.get(*id).unwrap_or(&empty);
        let mut filters: Vec<&str> = lops
            .iter()
            .filter_map(|o| match &o.what {
                What::Set(f, _) if f != SESSION => Some(f.as_str()),
                _ => None,
            })
            .collect();
        filters.sort();
        filters.dedup();
        let mut got: HashMap<(&[u8], &[u8]), Vec<(usize, u8, usize)>> = HashMap::new();
        for &c in cs {
            for (i, s) in &m.conns[c].out {
                if let S::Publish { topic, payload, qos, .. } = s {
                    if groups.contains_key(&(&topic[..], &payload[..])) {
                        got.entry((topic, payload)).or_default().push((*i, *qos, c));
                    } else {
                        bad.push(format!(
                            "c{c} is sent a message nobody published: {} {}",
                            Short(topic),
                            Short(payload)
                        ));
                    }
                }
            }
        }
        // per receiving and sending connection: the last item received, the first due one not received
        let mut last_got: HashMap<(usize, usize), usize> = HashMap::new();
        let mut missed: Vec<usize> = vec![];
        for (key, ms) in &groups {
            let (mut lower, mut upper) = (0usize, 0usize);
            let mut allowed = [false; 3];
            let mut min_lo = usize::MAX;
            if let ([k], Some(v)) = (&ms[..], got.get(key)) {
                for (_, _, c) in v {
                    let e = last_got.entry((*c, m.msgs[*k].conn)).or_insert(0);
                    *e = m.msgs[*k].item.max(*e);
                }
            }
            for &k in ms {
                let g = &m.msgs[k];
                let at = Some((g.conn, g.item));
                let vals: Vec<Vec<Option<u8>>> = filters
                    .iter()
                    .filter(|f| matches(f, &g.topic))
                    .map(|f| Model::values(lops, f, g.lo, g.hi, at))
                    .collect();
                let may = vals.iter().any(|v| v.iter().any(|x| x.is_some()));
                let must = vals.iter().any(|v| v.iter().all(|x| x.is_some()));
                if may {
                    upper += 1;
                    min_lo = min_lo.min(g.lo);
                    // possible highest QoS over the possible combinations
                    let mut mx: Vec<Option<u8>> = vec![None];
                    for v in &vals {
                        let mut nx = vec![];
                        for a in &mx {
                            for b in v {
                                let r = (*a).max(*b);
                                if !nx.contains(&r) {
                                    nx.push(r);
                                }
                            }
                        }
                        mx = nx;
                    }
                    for q in mx.into_iter().flatten() {
                        allowed[q.min(g.qos) as usize] = true;
                    }
                }
                if must && g.certain && ms.len() == 1 && !got.contains_key(key) {
                    missed.push(k);
                }
                if must && g.certain {
                    // the receiver is connected all the time
                    let settle = m.next_quiet(g.lo).max(g.hi);
                    let there = cs.iter().any(|&c| {
                        let x = &m.conns[c];
                        let ack = x.connack.is_some_and(|a| a < g.lo) || (c == g.conn && x.connack.is_some());
                        // a message is written by then if the client reads
                        let settle = settle.max(m.quiet_of(c, settle));
                        let gone = [
                            x.fatal.map(|f| x.items[f].lo),
                            x.eof,
                            x.loss,
                            x.superseded,
                            m.ctrlc,
                            x.overload,
                            x.may_close,
                        ]
                        .into_iter()
                        .flatten()
                        .min()
                        .unwrap_or(usize::MAX);
                        let gone = if opt.time { gone.min(x.dropped.unwrap_or(usize::MAX)) } else { gone };
                        ack && gone > settle && settle < m.len
                    });
                    if there {
                        lower += 1;
                    }
                }
            }
            let none = vec![];
            let g = got.get(key).unwrap_or(&none);
            let text = format!("{} {}", Short(key.0), Short(key.1));
            if g.len() < lower {
                bad.push(format!("client {id:?} does not get message {text} ({} of {lower})", g.len()));
            }
            if g.len() > upper {
                if upper == 0 {
                    bad.push(format!("client {id:?} gets message {text}, which it has no subscription for"));
                } else {
                    bad.push(format!("client {id:?} gets message {text} {} times, at most {upper} due", g.len()));
                }
            } else {
                for (i, q, c) in g {
                    if !allowed[*q as usize] {
                        bad.push(format!("c{c}: message {text} is delivered at QoS {q}"));
                    }
                    if *i < min_lo {
                        bad.push(format!("c{c}: message {text} is delivered before it was published"));
                    }
                }
            }
        }
        // what a connection gets is what is due to it up to some point, however it ends
        for k in missed {
            let g = &m.msgs[k];
            for &c in cs {
                let there = m.conns[c].connack.is_some_and(|a| a < g.lo);
                if there && last_got.get(&(c, g.conn)).is_some_and(|l| *l > g.item) {
                    bad.push(format!(
                        "c{c} gets a message of c{} but not the earlier one {} {}",
                        g.conn,
                        Short(g.topic.as_bytes()),
                        Short(&g.payload)
                    ));
                }
            }
        }
    }
    // --- order
    // when a message was first sent to anybody
    let mut known: HashMap<usize, usize> = HashMap::new();
    let mut seen: Vec<Vec<(usize, usize)>> = vec![];
    for x in &m.conns {
        let mut l = vec![];
        for (i, s) in &x.out {
            if let S::Publish { topic, payload, .. } = s {
                if let Some([k]) = groups.get(&(&topic[..], &payload[..])).map(|v| &v[..]) {
                    l.push((*i, *k));
                    let e = known.entry(*k).or_insert(*i);
                    *e = (*e).min(*i);
                }
            }
        }
        seen.push(l);
    }
    let text = |k: usize| format!("{} {}", Short(m.msgs[k].topic.as_bytes()), Short(&m.msgs[k].payload));
    for (c, l) in seen.iter().enumerate() {
        let mut last: HashMap<usize, usize> = HashMap::new();
        // of those received, the one that was sent last
        let mut newest: Option<usize> = None;
        for (_, k) in l {
            let g = &m.msgs[*k];
            if let Some(l) = last.insert(g.conn, g.item) {
                if l > g.item {
                    bad.push(format!("c{c} gets message {} of c{} after a later one", text(*k), g.conn));
                }
            }
            if let Some(n) = newest {
                if m.msgs[n].lo > known[k] {
                    bad.push(format!("c{c} gets message {} after {}, which was sent when others had it already", text(*k), text(n)));
                }
            }
            if newest.is_none_or(|n| m.msgs[n].lo < g.lo) {
                newest = Some(*k);
            }
        }
    }
}

fn why(x: &Conn) -> String {
    if let Some(f) = x.fatal {
        match &x.items[f].p {
            Ok(p) => format!("{p:?}"),
            Err(e) => format!("{e:?}"),
        }
    } else if x.superseded.is_some() {
        "a newer connection of the same client".into()
    } else {
        "the loss of the connection".into()
    }
}
