//! MQTT 3.1.1 as a client and a referee see it. Written from the standard, independently of the
//! broker's own codec.

use std::fmt;

/// Packets a client sends.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum C {
    Connect(Connect),
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: u16, payload: Vec<u8> },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe(u16, Vec<(String, u8)>),
    Unsubscribe(u16, Vec<String>),
    Ping,
    Disconnect,
    Raw(Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Connect {
    pub name: Vec<u8>,
    pub level: u8,
    pub id: String,
    pub clean: bool,
    pub keepalive: u16,
    pub will: Option<(String, Vec<u8>, u8, bool)>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
}

pub fn connect(id: &str) -> Connect {
    Connect {
        name: b"MQTT".to_vec(),
        level: 4,
        id: id.into(),
        clean: true,
        keepalive: 0,
        will: None,
        user: None,
        pass: None,
    }
}
impl Connect {
    pub fn persistent(mut self) -> Self {
        self.clean = false;
        self
    }
    pub fn keepalive(mut self, k: u16) -> Self {
        self.keepalive = k;
        self
    }
}

pub fn put_len(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        out.push(b);
        if n == 0 {
            break;
        }
    }
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    put_len(&mut o, body.len());
    o.extend_from_slice(body);
    o
}
pub fn put_str(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u16).to_be_bytes());
    o.extend_from_slice(s);
}

impl Connect {
    pub fn enc(&self) -> Vec<u8> {
        let mut b = Vec::new();
        put_str(&mut b, &self.name);
        b.push(self.level);
        let mut f = 0u8;
        if self.clean {
            f |= 2;
        }
        if let Some((_, _, q, r)) = &self.will {
            f |= 4 | (q << 3) | ((*r as u8) << 5);
        }
        if self.user.is_some() {
            f |= 0x80;
        }
        if self.pass.is_some() {
            f |= 0x40;
        }
        b.push(f);
        b.extend_from_slice(&self.keepalive.to_be_bytes());
        put_str(&mut b, self.id.as_bytes());
        if let Some((t, p, _, _)) = &self.will {
            put_str(&mut b, t.as_bytes());
            put_str(&mut b, p);
        }
        if let Some(u) = &self.user {
            put_str(&mut b, u.as_bytes());
        }
        if let Some(p) = &self.pass {
            put_str(&mut b, p);
        }
        frame(0x10, &b)
    }
}

impl C {
    pub fn enc(&self) -> Vec<u8> {
        match self {
            C::Connect(c) => c.enc(),
            C::Publish { dup, qos, retain, topic, pid, payload } => {
                let mut b = Vec::with_capacity(payload.len() + topic.len() + 4);
                put_str(&mut b, topic.as_bytes());
                if *qos > 0 {
                    b.extend_from_slice(&pid.to_be_bytes());
                }
                b.extend_from_slice(payload);
                frame(0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8, &b)
            }
            C::PubAck(p) => frame(0x40, &p.to_be_bytes()),
            C::PubRec(p) => frame(0x50, &p.to_be_bytes()),
            C::PubRel(p) => frame(0x62, &p.to_be_bytes()),
            C::PubComp(p) => frame(0x70, &p.to_be_bytes()),
            C::Subscribe(p, fs) => {
                let mut b = p.to_be_bytes().to_vec();
                for (f, q) in fs {
                    put_str(&mut b, f.as_bytes());
                    b.push(*q);
                }
                frame(0x82, &b)
            }
            C::Unsubscribe(p, fs) => {
                let mut b = p.to_be_bytes().to_vec();
                for f in fs {
                    put_str(&mut b, f.as_bytes());
                }
                frame(0xA2, &b)
            }
            C::Ping => frame(0xC0, &[]),
            C::Disconnect => frame(0xE0, &[]),
            C::Raw(b) => b.clone(),
        }
    }
}

/// Packets the broker sends.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum S {
    ConnAck(bool, u8),
    Publish { dup: bool, qos: u8, retain: bool, topic: Vec<u8>, pid: u16, payload: Vec<u8> },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck(u16, Vec<u8>),
    UnsubAck(u16),
    PingResp,
    Bad(String),
}

/// The length field: None = incomplete, Err = malformed, Ok((len, bytes used)).
pub fn get_len(b: &[u8]) -> Option<Result<(usize, usize), ()>> {
    let mut v = 0usize;
    for i in 0..4 {
        let x = *b.get(i)?;
        v |= ((x & 127) as usize) << (7 * i);
        if x & 128 == 0 {
            return Some(Ok((v, i + 1)));
        }
    }
    Some(Err(()))
}

/// Splits one frame off the front: None = incomplete.
pub fn split(b: &[u8]) -> Option<Result<(u8, &[u8], usize), ()>> {
    let first = *b.first()?;
    match get_len(&b[1..])? {
        Err(()) => Some(Err(())),
        Ok((n, k)) => {
            if b.len() < 1 + k + n {
                None
            } else {
                Some(Ok((first, &b[1 + k..1 + k + n], 1 + k + n)))
            }
        }
    }
}

pub fn dec_s(first: u8, b: &[u8]) -> S {
    let bad = |m: &str| S::Bad(format!("{m}: {:02x} {:02x?}", first, &b[..b.len().min(40)]));
    let pid = || if b.len() == 2 { Some(u16::from_be_bytes([b[0], b[1]])) } else { None };
    match first >> 4 {
        2 if first == 0x20 && b.len() == 2 && b[0] <= 1 && b[1] <= 5 => S::ConnAck(b[0] == 1, b[1]),
        3 => {
            let qos = (first >> 1) & 3;
            if b.len() < 2 || qos == 3 {
                return bad("publish");
            }
            let n = u16::from_be_bytes([b[0], b[1]]) as usize;
            let need = 2 + n + if qos > 0 { 2 } else { 0 };
            if b.len() < need {
                return bad("publish too short");
            }
            let pid = if qos > 0 { u16::from_be_bytes([b[2 + n], b[3 + n]]) } else { 0 };
            S::Publish {
                dup: first & 8 != 0,
                qos,
                retain: first & 1 != 0,
                topic: b[2..2 + n].to_vec(),
                pid,
                payload: b[need..].to_vec(),
            }
        }
        4 if first == 0x40 => pid().map(S::PubAck).unwrap_or_else(|| bad("puback")),
        5 if first == 0x50 => pid().map(S::PubRec).unwrap_or_else(|| bad("pubrec")),
        6 if first == 0x62 => pid().map(S::PubRel).unwrap_or_else(|| bad("pubrel")),
        7 if first == 0x70 => pid().map(S::PubComp).unwrap_or_else(|| bad("pubcomp")),
        9 if first == 0x90 && b.len() >= 3 && b[2..].iter().all(|c| matches!(c, 0 | 1 | 2 | 0x80)) => {
            S::SubAck(u16::from_be_bytes([b[0], b[1]]), b[2..].to_vec())
        }
        11 if first == 0xB0 => pid().map(S::UnsubAck).unwrap_or_else(|| bad("unsuback")),
        13 if first == 0xD0 && b.is_empty() => S::PingResp,
        _ => bad("not a packet a broker may send"),
    }
}

/// Incremental decoder of what the broker writes.
#[derive(Default, Clone)]
pub struct SDec {
    buf: Vec<u8>,
    dead: bool,
}
impl SDec {
    pub fn push(&mut self, b: &[u8], out: &mut Vec<S>) {
        if self.dead {
            return;
        }
        self.buf.extend_from_slice(b);
        let mut at = 0;
        loop {
            match split(&self.buf[at..]) {
                None => break,
                Some(Err(())) => {
                    self.dead = true;
                    out.push(S::Bad("length".into()));
                    break;
                }
                Some(Ok((f, body, n))) => {
                    let s = dec_s(f, body);
                    if matches!(s, S::Bad(_)) {
                        self.dead = true;
                        out.push(s);
                        break;
                    }
                    out.push(s);
                    at += n;
                }
            }
        }
        self.buf.drain(..at);
    }
    /// Bytes of an unfinished packet.
    pub fn rest(&self) -> usize {
        if self.dead {
            0
        } else {
            self.buf.len()
        }
    }
}

// ----- what a broker must make of a client's bytes ---------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Bad {
    /// Malformed, or a packet a client may not send.
    Malformed(&'static str),
    /// CONNECT with another protocol level.
    Level,
    /// CONNECT with an empty identifier and no clean session.
    EmptyId,
    /// PUBLISH to a topic that is empty or has wildcards.
    Topic,
}

/// Such a CONNECT may be answered with CONNACK 2 or not at all.
pub const ALSO_EMPTY_ID: &str = "malformed after an unacceptable empty identifier";

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Result<u8, Bad> {
        let (a, r) = self.0.split_first().ok_or(Bad::Malformed("short"))?;
        self.0 = r;
        Ok(*a)
    }
    fn u16(&mut self) -> Result<u16, Bad> {
        Ok(u16::from_be_bytes([self.u8()?, self.u8()?]))
    }
    fn bin(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.u16()? as usize;
        if self.0.len() < n {
            return Err(Bad::Malformed("short field"));
        }
        let (a, r) = self.0.split_at(n);
        self.0 = r;
        Ok(a)
    }
    fn str(&mut self) -> Result<String, Bad> {
        let s = std::str::from_utf8(self.bin()?).map_err(|_| Bad::Malformed("utf-8"))?;
        if s.contains('\0') {
            return Err(Bad::Malformed("U+0000"));
        }
        Ok(s.to_string())
    }
    fn end(&self) -> Result<(), Bad> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(Bad::Malformed("trailing bytes"))
        }
    }
}

pub fn dec_c(first: u8, body: &[u8]) -> Result<C, Bad> {
    let mut r = Rd(body);
    let flags = first & 15;
    let need = |f: u8| if flags == f { Ok(()) } else { Err(Bad::Malformed("flags")) };
    let nz = |p: u16| if p == 0 { Err(Bad::Malformed("packet id 0")) } else { Ok(p) };
    match first >> 4 {
        1 => {
            need(0)?;
            let name = r.bin()?.to_vec();
            if name != b"MQTT" {
                return Err(Bad::Malformed("protocol name"));
            }
            let level = r.u8()?;
            if level != 4 {
                return Err(Bad::Level);
            }
            let f = r.u8()?;
            let wq = (f >> 3) & 3;
            if f & 1 != 0 || (f & 4 == 0 && f & 0x38 != 0) || wq == 3 || (f & 0x80 == 0 && f & 0x40 != 0) {
                return Err(Bad::Malformed("connect flags"));
            }
            let keepalive = r.u16()?;
            let id = r.str()?;
            let mut rest = || {
                let will = if f & 4 != 0 { Some((r.str()?, r.bin()?.to_vec(), wq, f & 0x20 != 0)) } else { None };
                let user = if f & 0x80 != 0 { Some(r.str()?) } else { None };
                let pass = if f & 0x40 != 0 { Some(r.bin()?.to_vec()) } else { None };
                r.end()?;
                Ok((will, user, pass))
            };
            let rest: Result<_, Bad> = rest();
            if id.is_empty() && f & 2 == 0 {
                return Err(if rest.is_ok() { Bad::EmptyId } else { Bad::Malformed(ALSO_EMPTY_ID) });
            }
            let (will, user, pass) = rest?;
            Ok(C::Connect(Connect { name, level, id, clean: f & 2 != 0, keepalive, will, user, pass }))
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err(Bad::Malformed("qos 3"));
            }
            let topic = r.str()?;
            let pid = if qos > 0 { nz(r.u16()?)? } else { 0 };
            if topic.is_empty() || topic.contains(['+', '#']) {
                return Err(Bad::Topic);
            }
            Ok(C::Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, pid, payload: r.0.to_vec() })
        }
        t @ (4 | 5 | 6 | 7) => {
            need(if t == 6 { 2 } else { 0 })?;
            let p = r.u16()?;
            r.end()?;
            Ok(match t {
                4 => C::PubAck(p),
                5 => C::PubRec(p),
                6 => C::PubRel(p),
                _ => C::PubComp(p),
            })
        }
        8 => {
            need(2)?;
            let p = nz(r.u16()?)?;
            let mut v = Vec::new();
            while !r.0.is_empty() {
                let f = r.str()?;
                let q = r.u8()?;
                if q > 2 {
                    return Err(Bad::Malformed("requested qos"));
                }
                v.push((f, q));
            }
            if v.is_empty() {
                return Err(Bad::Malformed("no filters"));
            }
            Ok(C::Subscribe(p, v))
        }
        10 => {
            need(2)?;
            let p = nz(r.u16()?)?;
            let mut v = Vec::new();
            while !r.0.is_empty() {
                v.push(r.str()?);
            }
            if v.is_empty() {
                return Err(Bad::Malformed("no filters"));
            }
            Ok(C::Unsubscribe(p, v))
        }
        12 => {
            need(0)?;
            r.end()?;
            Ok(C::Ping)
        }
        14 => {
            need(0)?;
            r.end()?;
            Ok(C::Disconnect)
        }
        _ => Err(Bad::Malformed("packet type")),
    }
}

/// May the broker already refuse this incomplete frame? (It may, if no completion is acceptable.)
pub fn hopeless_prefix(b: &[u8]) -> bool {
    let Some(&first) = b.first() else { return false };
    let f = first & 15;
    match first >> 4 {
        1 | 4 | 5 | 7 | 12 | 14 => f != 0,
        6 | 8 | 10 => f != 2,
        3 => f & 6 == 6,
        _ => true,
    }
}

// ----- topics ---------------------------------------------------------------------------------

pub fn valid_filter(f: &str) -> bool {
    if f.is_empty() {
        return false;
    }
    if f == "$share" {
        return true;
    }
    let lv: Vec<&str> = f.split('/').collect();
    if lv[0] == "$share" && lv[1].contains(['+', '#']) {
        return false;
    }
    lv.iter().enumerate().all(|(i, l)| {
        if *l == "#" {
            i == lv.len() - 1
        } else {
            *l == "+" || !l.contains(['+', '#'])
        }
    })
}
pub fn valid_topic(t: &str) -> bool {
    !t.is_empty() && !t.contains(['+', '#'])
}

/// Does the filter match the topic? `$share/<group>/` is a namespace of its own.
pub fn matches(filter: &str, topic: &str) -> bool {
    fn share(s: &str) -> Option<(&str, Option<&str>)> {
        let r = s.strip_prefix("$share/")?;
        Some(match r.split_once('/') {
            Some((g, rest)) => (g, Some(rest)),
            None => (r, None),
        })
    }
    match (share(filter), share(topic)) {
        (None, None) => plain_matches(filter, topic),
        (Some((g, f)), Some((h, t))) => g == h && match (f, t) {
            (Some(f), Some(t)) => levels_match(f, t),
            (None, None) => true,
            (Some("#"), None) => true,
            _ => false,
        },
        _ => false,
    }
}
fn plain_matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    levels_match(filter, topic)
}
fn levels_match(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    for (i, l) in f.iter().enumerate() {
        if *l == "#" {
            return true;
        }
        if i >= t.len() || (*l != "+" && *l != t[i]) {
            return false;
        }
    }
    f.len() == t.len()
}

pub struct Short<'a>(pub &'a [u8]);
impl fmt::Display for Short<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.len() > 24 {
            write!(f, "{}..({} bytes)", self.0[..24].escape_ascii(), self.0.len())
        } else {
            write!(f, "{}", self.0.escape_ascii())
        }
    }
}
