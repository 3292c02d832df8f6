//! What is on the wire: C03, C04, C07, C08, C09, C10.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::monitor::{monitor, Opt};
use crate::scen::*;
use crate::script;
use crate::Tier;
use std::sync::Arc;

fn pubb(topic: &str, qos: u8, pid: u16, payload: Vec<u8>) -> C {
    C::Publish { dup: false, qos, retain: false, topic: topic.into(), pid, payload }
}

/// Recognisable bytes of length n.
fn fill(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8).wrapping_add(seed)).collect()
}

pub fn c03(t: Tier, out: &mut Vec<Scenario>) {
    // sizes: around every boundary of the length field (incoming and outgoing packets may differ by
    // the packet identifier) and of common buffers
    let mut sizes: Vec<usize> = vec![];
    for b in [0usize, 1, 64, 127, 128, 255, 256, 1024, 4096, 8192, 16383, 16384, 32768, 65535, 65536, 131072, 1 << 20, 2097151, 2097152] {
        let w = if t == Tier::Quick && b > 1 << 17 { 8 } else { 12 };
        for d in 0..=w {
            sizes.push((b + 2).saturating_sub(d));
        }
    }
    if t == Tier::Thorough {
        sizes.extend(0..700);
        sizes.extend(8150..8210);
        sizes.extend(16360..16400);
        sizes.extend([3_000_000, 10_000_000, 50_000_000]);
    } else {
        sizes.extend(0..140);
        sizes.push(5_000_000);
    }
    // up to the largest there are: 268,435,455 bytes with topic and identifier
    sizes.extend([1 << 24, 1 << 26, 1 << 27, 268_435_450]);
    if t == Tier::Thorough {
        sizes.extend([(1 << 24) - 1, (1 << 24) + 1, (1 << 25), 100_000_000, 200_000_000, (1 << 27) - 1, (1 << 27) + 1, 268_435_449]);
    }
    sizes.sort();
    sizes.dedup();
    let small: Vec<usize> = sizes.iter().copied().filter(|s| *s < 200_000).collect();
    for (k, ch) in small.chunks(8).enumerate() {
        for (qp, qs) in [(0u8, 0u8), (1, 1), (2, 2), (0, 2), (2, 0), (1, 2)] {
            let mut s = Scenario::new(format!("sizes {}.. q{qp} q{qs}", ch[0]));
            let (r, p) = (s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("t", qs)]), join(p, "p")];
            for (i, n) in ch.iter().enumerate() {
                v.push(send(p, pubb("t", qp, i as u16 + 1, fill(*n, k as u8))));
                v.push(Step::Quiet);
            }
            // and all of them together
            let all: Vec<C> = ch.iter().enumerate().map(|(i, n)| pubb("t", qp, i as u16 + 100, fill(*n, 100 + k as u8))).collect();
            v.push(sends(p, &all));
            s.actor(v);
            out.push(s.std());
        }
    }
    // every size of payload, and every length of topic, up to
    let upto = if t == Tier::Quick { 9_000 } else { 40_000 };
    for lo in (0..upto).step_by(500) {
        let q = (lo / 500 % 3) as u8;
        for topics in [false, true] {
            let mut s = Scenario::new(format!("every {} from {lo}", if topics { "topic length" } else { "size" }));
            s.spin = 100_000;
            let (r, p) = (s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("#", q)]), join(p, "p")];
            for n in lo..lo + 500 {
                if topics {
                    v.push(send(p, publ(&"n".repeat(n + 1), q, (n % 500) as u16 + 1, &format!("{n}"))));
                } else {
                    v.push(send(p, pubb("t", q, (n % 500) as u16 + 1, fill(n, (n % 97) as u8))));
                }
                if n % 5 == 0 {
                    v.push(Step::Quiet);
                }
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    for n in sizes.iter().copied().filter(|s| *s >= 200_000) {
        let qs: &[(u8, u8)] = if n > 4_000_000 { &[(1, 1)] } else { &[(0, 0), (2, 2), (2, 0), (0, 1)] };
        for &(qp, q) in qs {
            if t == Tier::Quick && n < 4_000_000 && (qp, q) != (0, 0) && (qp, q) != (2, 2) && n % 3 != 0 {
                continue;
            }
            let mut s = Scenario::new(format!("size {n} q{qp} q{q}"));
            let (r, p) = (s.conn(), s.conn());
            s.spin = 100_000;
            s.actor(script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p"), Step::Make(p, Arc::new(move || pubb("t", qp, 1, fill(n, 3)).enc())), Step::Quiet, send(p, pub0("t", "tail"))]);
            out.push(s.std());
        }
    }
    // topic lengths
    for n in [1usize, 2, 63, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 1000, 16370, 16379, 16380, 16381, 16382, 16383, 16384, 32767, 32768, 65534, 65535] {
        for q in 0..3 {
            let topic = "t".repeat(n);
            let mut s = Scenario::new(format!("topic length {n} q{q}"));
            let (r, p) = (s.conn(), s.conn());
            s.actor(script![join(r, "r"), subd(r, 1, &[("#", q)]), join(p, "p"), send(p, pubb(&topic, q, 1, vec![])), Step::Quiet, send(p, pubb(&topic, q, 2, fill(5, 1))), Step::Quiet, send(p, pubb(&topic, 2 - q, 3, fill(130, 1)))]);
            out.push(s.std());
        }
    }
    // payload bytes: all short strings over special bytes, every single byte, and packets in payloads
    let mut pl: Vec<Vec<u8>> = vec![vec![]];
    for b in 0..=255u8 {
        pl.push(vec![b]);
    }
    let alpha: &[u8] = &[0, 1, 2, 0x10, 0x30, 0x62, 0x7f, 0x80, 0xc0, 0xe0, 0xff];
    for &a in alpha {
        for &b in alpha {
            pl.push(vec![a, b]);
            if t == Tier::Thorough {
                for &c in alpha {
                    pl.push(vec![a, b, c]);
                }
            }
        }
    }
    pl.push(C::Disconnect.enc());
    pl.push(sub(1, &[("x", 0)]).enc());
    pl.push(publ("x", 1, 1, "y").enc());
    pl.push("日本語\u{0}é".as_bytes().to_vec());
    let topics = ["t", "é/日本", "a b", "/", "$x/y", "a\u{1}b", "{}", "\u{feff}t"];
    for (k, ch) in pl.chunks(16).enumerate() {
        for q in 0..3u8 {
            let mut s = Scenario::new(format!("payloads {k} q{q}"));
            let (r, p) = (s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("#", q), ("$x/#", q)]), join(p, "p")];
            for (i, b) in ch.iter().enumerate() {
                v.push(send(p, pubb(topics[(i + k) % topics.len()], (q + (k % 2) as u8) % 3, i as u16 + 1, b.clone())));
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // all payloads of two bytes, all of three over an alphabet of bytes that could mean something
    let mut pl: Vec<Vec<u8>> = (0..=65_535u16).map(|x| x.to_be_bytes().to_vec()).collect();
    let alpha: &[u8] = if t == Tier::Quick {
        b"\x00\x01\t\n\r \"\\{\x7f\x80\xbb\xbf\xef\xfe\xff"
    } else {
        b"\x00\x01\x02\x07\x08\t\n\r\x10\x1a\x1b\x1f \"$%'<\\a{\x7f\x80\x8b\xa9\xb5\xbb\xbf\xc0\xc3\xef\xf8\xfd\xfe\xff"
    };
    for &a in alpha {
        for &b in alpha {
            for &c in alpha {
                pl.push(vec![a, b, c]);
                // in front of something, behind something
                if a != b && b != c {
                    pl.push([&[a, b, c][..], b"text"].concat());
                    pl.push([b"text", &[a, b, c][..]].concat());
                }
            }
        }
    }
    for n in [4usize, 5, 8, 16, 31, 100, 1000] {
        for b in [0u8, 0x20, 0x41, 0xff] {
            pl.push(vec![b; n]);
        }
    }
    for (k, ch) in pl.chunks(1000).enumerate() {
        let mut s = Scenario::new(format!("contents {k}"));
        s.spin = 100_000;
        let (r, p) = (s.conn(), s.conn());
        let q = (k % 3) as u8;
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
        for c in ch.chunks(50) {
            v.push(sends(p, &c.iter().map(|b| pubb("t", 0, 0, b.clone())).collect::<Vec<_>>()));
            v.push(Step::Quiet);
        }
        s.actor(v);
        out.push(s.std());
    }
    // the same again and again: each of them is a message
    for n in [2usize, 3, 10, 101, 300] {
        for q in 0..3u8 {
            let mut s = Scenario::new(format!("{n} equal messages q{q}"));
            let (r, o, p) = (s.conn(), s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(o, "o"), subd(o, 1, &[("#", 0)]), join(p, "p")];
            v.push(sends(p, &(0..n).map(|i| publ("t", q, i as u16 + 1, "same")).collect::<Vec<_>>()));
            v.push(Step::Quiet);
            if q < 2 {
                // also under one identifier
                for _ in 0..n {
                    v.push(send(p, publ("t", q, 1, "same")));
                    v.push(Step::Quiet);
                }
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // every character of the basic blocks, and those that are often taken for something else, in topics
    let chars: Vec<char> = (1..if t == Tier::Quick { 0x180u32 } else { 0xffff })
        .chain([0x300, 0x345, 0x3a3, 0x3c2, 0x130, 0x131, 0x1e9e, 0x200b, 0x200d, 0x200e, 0x2028, 0x202e, 0x212a, 0x2160, 0xd7ff, 0xe000, 0xfb01, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff])
        .filter_map(char::from_u32)
        .filter(|c| !['+', '#', '/'].contains(c))
        .collect();
    for (k, ch) in chars.chunks(32).enumerate() {
        let mut s = Scenario::new(format!("characters {k}"));
        s.spin = 100_000;
        let (r, o, p) = (s.conn(), s.conn(), s.conn());
        let ts: Vec<String> = ch.iter().flat_map(|c| [format!("x{c}/{c}y"), format!("{c}"), format!("/{c}")]).collect();
        let mut v = script![join(r, "r"), subd(r, 1, &[("#", 0)]), join(o, "o"), join(p, "p")];
        v.extend(subd(o, 1, &ts.iter().map(|t| (t.as_str(), 1)).collect::<Vec<_>>()));
        for (i, t) in ts.iter().enumerate() {
            v.push(send(p, publ(t, 1, i as u16 + 1, t)));
        }
        s.actor(v);
        out.push(s.std());
    }
    // flags of the incoming packet do not show in the outgoing one
    let mut s = Scenario::new("flags");
    let (r, p) = (s.conn(), s.conn());
    let mut v = script![join(r, "r"), subd(r, 1, &[("t", 2)]), join(p, "p")];
    let mut k = 0;
    for qos in 0..3u8 {
        for retain in [false, true] {
            for dup in [false, true] {
                if qos == 0 && dup {
                    continue;
                }
                k += 1;
                v.push(send(p, C::Publish { dup, qos, retain, topic: "t".into(), pid: k, payload: fill(k as usize, 7) }));
                v.push(Step::Quiet);
            }
        }
    }
    s.actor(v);
    out.push(s.std());
    // fan-out of different sizes to readers that take the bytes in pieces
    for chunk in [1usize, 2, 3, 7, 100] {
        let mut s = Scenario::new(format!("writes of {chunk}"));
        let (a, b, p) = (s.conn(), s.conn(), s.conn());
        s.write_chunk = chunk;
        s.spin = 50_000;
        let mut v = script![join(a, "a"), subd(a, 1, &[("t", 0)]), join(b, "b"), subd(b, 1, &[("t", 1)]), join(p, "p")];
        for (i, n) in [0usize, 1, 120, 121, 122, 123, 124, 125, 126, 300, 20_000].iter().enumerate() {
            v.push(send(p, pubb("t", 1, i as u16 + 1, fill(*n, 9))));
        }
        s.actor(v);
        out.push(s.std());
    }
    // two publishers at the same time
    let mut s = Scenario::new("schedules");
    let (r, a, b) = (s.conn(), s.conn(), s.conn());
    s.cost[K::Write as usize] = 1;
    s.actor(script![join(r, "r"), subd(r, 1, &[("+", 1)])]);
    s.actor(script![join(a, "a"), sends(a, &[pubb("x", 0, 0, fill(130, 1)), pubb("xx", 1, 1, fill(3, 2))])]);
    s.actor(script![join(b, "b"), sends(b, &[pubb("yyy", 2, 1, fill(125, 3)), pubb("y", 0, 0, vec![])])]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = if t == Tier::Quick { 2 } else { 16 };
    vary(s.std(), out);
}

/// A client that acknowledges nothing until every packet identifier is in use and some messages wait.
pub fn all_in_use(q: u8, waiting: usize, mixed: bool) -> Scenario {
    let mut s = Scenario::new(format!("all identifiers in use q{q}, {waiting} wait, mixed={mixed}"));
    s.autoack = false;
    s.max_steps = 10_000_000;
    s.spin = 100_000;
    let (r, p) = (s.conn(), s.conn());
    let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
    let n = 65_535 + waiting;
    // what waits has every QoS, if it is mixed
    let qos = |i: usize| if mixed && i >= 65_535 { ((i + i / 7) % 3) as u8 } else { q };
    for b in 0..n.div_ceil(60) {
        let k = 60.min(n - b * 60);
        v.push(sends(p, &(0..k).map(|i| publ("t", qos(b * 60 + i), i as u16 + 1, &format!("{}", b * 60 + i))).collect::<Vec<_>>()));
        v.push(Step::Quiet);
        if q == 2 || mixed {
            v.push(sends(p, &(0..k).map(|i| C::PubRel(i as u16 + 1)).collect::<Vec<_>>()));
        }
    }
    // it is served all the same
    v.push(send(r, C::Ping));
    v.push(Step::Quiet);
    // some are completed, in no particular order
    for (k, id) in [30_000u16, 1, 65_535, 29_999, 2].into_iter().enumerate() {
        if q == 1 {
            v.push(send(r, C::PubAck(id)));
        } else {
            v.push(send(r, C::PubRec(id)));
            v.push(Step::Quiet);
            v.push(send(r, C::PubComp(id)));
        }
        v.push(Step::Quiet);
        v.push(send(r, sub(k as u16 + 5, &[("u", 0)])));
        v.push(Step::Quiet);
    }
    v.push(Step::AckAll(r, 0));
    v.push(send(p, publ("t", 1, 1, "last")));
    v.push(Step::Quiet);
    s.actor(v);
    s.std()
}

pub fn c04(t: Tier, out: &mut Vec<Scenario>) {
    // all QoS of publish and of one, two or three matching subscriptions of one client
    let qos = [0u8, 1, 2, 9];
    for a in qos {
        for b in qos {
            for c in qos {
                let mut s = Scenario::new(format!("qos of subscriptions {a} {b} {c}"));
                let (r, o, p) = (s.conn(), s.conn(), s.conn());
                let mut v = script![join(r, "r"), join(o, "o"), join(p, "p")];
                let fs: Vec<(&str, u8)> = [("t/x", a), ("t/+", b), ("#", c)].into_iter().filter(|x| x.1 < 3).collect();
                let rev: Vec<(&str, u8)> = fs.iter().rev().cloned().collect();
                if fs.is_empty() {
                    continue;
                }
                v.extend(subd(r, 1, &fs));
                v.extend(subd(o, 1, &rev));
                for q in 0..3u8 {
                    v.push(send(p, publ("t/x", q, q as u16 + 1, &format!("m{q}"))));
                    v.push(Step::Quiet);
                    v.push(send(p, publ("t/y", q, q as u16 + 11, &format!("n{q}"))));
                }
                // granted again with another QoS: the last one counts
                for (k, f) in ["t/x", "t/+", "#"].into_iter().enumerate() {
                    v.extend(subd(r, 7, &[(f, (a + 1) % 3)]));
                    for q in 0..3u8 {
                        v.push(send(p, publ("t/x", q, q as u16 + 21 + 10 * k as u16, &format!("{f}{q}"))));
                    }
                    v.push(Step::Quiet);
                }
                s.actor(v);
                s.hash_seed = (a * 16 + b * 4 + c) as u64;
                out.push(s.std());
            }
        }
    }
    // identifiers: deliveries and acknowledgements in every order
    for q in [1u8, 2] {
        let mut s = Scenario::new(format!("acknowledgement histories q{q}"));
        s.autoack = false;
        let (r, p) = (s.conn(), s.conn());
        let n = if t == Tier::Quick { 5 } else { 7 };
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
        for k in 0..n as u16 {
            let mut opts = vec![];
            opts.push(script![send(p, publ("t", q, k + 1, &format!("m{k}"))), Step::Quiet]);
            opts.push(script![send(p, publ("t", 1, k + 1, &format!("m{k}"))), Step::Quiet]);
            opts.push(script![send(p, pub0("t", &format!("m{k}"))), Step::Quiet]);
            for id in 1..=2u16 {
                opts.push(script![send(r, C::PubAck(id)), Step::Quiet]);
                if q == 2 {
                    opts.push(script![send(r, C::PubRec(id)), Step::Quiet]);
                    opts.push(script![send(r, C::PubComp(id)), Step::Quiet]);
                }
            }
            if q == 1 || k % 2 == 0 || t == Tier::Thorough {
                v.push(branch(opts));
            } else {
                v.push(opts[0][0].clone());
                v.push(Step::Quiet);
            }
        }
        s.actor(v);
        s.parts = 16;
        out.push(s.std());
    }
    // deliveries that wait for a slow client keep their QoS, acknowledged or not
    for n in if t == Tier::Quick { vec![70usize, 1_300, 5_000] } else { vec![70, 300, 1_300, 5_000, 9_900] } {
        for ack in [true, false] {
            let mut s = Scenario::new(format!("{n} deliveries wait, acknowledged={ack}"));
            s.autoack = ack;
            s.max_steps = 3_000_000;
            s.spin = 300_000;
            s.cost[K::Early as usize] = OFF;
            let (r, o, p) = (s.conn(), s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("t/1", 1), ("t/2", 2), ("t/+", 0)]), join(o, "o"), subd(o, 1, &[("#", 2)]), join(p, "p"), window(r, Some(0))];
            for b in 0..n.div_ceil(60) {
                v.push(sends(p, &(0..60.min(n - b * 60)).map(|i| publ(&format!("t/{}", i / 3 % 3), (i % 3) as u8, i as u16 + 1, &format!("{b}.{i}"))).collect::<Vec<_>>()));
                v.push(Step::Quiet);
                v.push(sends(p, &(0..60).map(|i| C::PubRel(i as u16 + 1)).collect::<Vec<_>>()));
                v.push(Step::Quiet);
            }
            v.extend([window(r, Some(1000)), Step::Quiet, window(r, None), Step::Quiet]);
            for q in 0..3u8 {
                v.extend([send(p, publ("t/2", q, 1 + q as u16, &format!("last{q}"))), Step::Quiet]);
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // more deliveries than there are identifiers, with one (or several) never acknowledged
    let total: usize = 66_200;
    for (q, held) in [(1u8, 1u16), (2, 3)] {
        let mut s = Scenario::new(format!("identifier wrap-around q{q} held {held}"));
        s.autoack = false;
        s.max_steps = 10_000_000;
        let (r, p) = (s.conn(), s.conn());
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
        // the first `held` deliveries stay unacknowledged
        for k in 0..held {
            v.push(send(p, publ("t", q, k + 1, &format!("held{k}"))));
            v.push(Step::Quiet);
        }
        let block = 50usize;
        for b in 0..total / block {
            let ps: Vec<C> = (0..block).map(|i| publ("t", q, (i + 100) as u16, &format!("{}", b * block + i))).collect();
            v.push(sends(p, &ps));
            v.push(Step::Quiet);
            if q == 2 {
                v.push(sends(p, &(0..block).map(|i| C::PubRel((i + 100) as u16)).collect::<Vec<_>>()));
            }
            v.push(Step::AckAll(r, held as usize));
            v.push(Step::Quiet);
        }
        s.actor(v);
        out.push(s.std());
    }
    // the same, after anything that does not complete a delivery
    let pre: Vec<(&str, Vec<C>)> = vec![
        ("PUBREC", vec![C::PubRec(1), C::PubRec(2), C::PubRec(1)]),
        ("unknown", vec![C::PubAck(60_000), C::PubComp(60_001), C::PubRec(60_002), C::PubAck(4), C::PubComp(5), C::PubAck(0xffff)]),
        ("own messages", vec![publ("o", 1, 1, "x"), publ("o", 2, 2, "x"), C::PubRel(2), publ("o", 2, 3, "x"), publ("o", 1, 0xffff, "x"), C::PubRel(1)]),
        ("requests", vec![sub(1, &[("u", 1)]), unsub(2, &["u", "none"]), C::Ping, sub(3, &[("t", 2)])]),
    ];
    for q in [1u8, 2] {
        for m in 1..1usize << pre.len() {
            if q == 1 && m & 1 == 1 || t == Tier::Quick && m.count_ones() > 1 && m != 14 {
                continue;
            }
            let nm: Vec<&str> = pre.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1 .0).collect();
            let mut s = Scenario::new(format!("identifier wrap-around q{q} after {}", nm.join(", ")));
            s.autoack = false;
            s.max_steps = 10_000_000;
            s.spin = 100_000;
            let (r, p) = (s.conn(), s.conn());
            let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
            let held = 3usize;
            for k in 0..held as u16 {
                v.push(send(p, publ("t", q, k + 1, &format!("held{k}"))));
                v.push(Step::Quiet);
            }
            let now = |v: &mut Vec<Step>| {
                for (i, (_, ps)) in pre.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        for c in ps {
                            v.push(send(r, c.clone()));
                            v.push(Step::Quiet);
                        }
                    }
                }
            };
            now(&mut v);
            let block = 100usize;
            for b in 0..65_700 / block {
                v.push(sends(p, &(0..block).map(|i| publ("t", q, (i + 100) as u16, &format!("{}", b * block + i))).collect::<Vec<_>>()));
                v.push(Step::Quiet);
                if q == 2 {
                    v.push(sends(p, &(0..block).map(|i| C::PubRel((i + 100) as u16)).collect::<Vec<_>>()));
                }
                if b == 300 {
                    now(&mut v);
                }
                v.push(Step::AckAll(r, held));
                v.push(Step::Quiet);
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // every identifier in use
    for (q, waiting, mixed) in [(1u8, 5usize, false), (2, 5, false), (2, 60, true), (1, 9_900, true)] {
        out.push(all_in_use(q, waiting, mixed));
    }
    // many unacknowledged at once
    for q in [1u8, 2] {
        let mut s = Scenario::new(format!("many in flight q{q}"));
        s.autoack = false;
        let n = if t == Tier::Quick { 600 } else { 5000 };
        let (r, p) = (s.conn(), s.conn());
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", q)]), join(p, "p")];
        for b in 0..n / 50 {
            v.push(sends(p, &(0..50).map(|i| publ("t", 1 + (i % 2) as u8, i + 100, &format!("{b}.{i}"))).collect::<Vec<_>>()));
            v.push(sends(p, &(0..50).filter(|i| i % 2 == 1).map(|i| C::PubRel(i + 100)).collect::<Vec<_>>()));
            v.push(Step::Quiet);
        }
        s.actor(v);
        out.push(s.std());
    }
    // two publishers with equal identifiers, a receiver that is a publisher too
    let mut s = Scenario::new("schedules");
    let (r, a, b) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("t", 1), ("#", 2)]), send(r, publ("t", 2, 1, "own")), await_n(r, S::PubRec(1), 1), send(r, C::PubRel(1))]);
    s.actor(script![join(a, "a"), subd(a, 1, &[("t", 1)]), send(a, publ("t", 2, 1, "a1"))]);
    s.actor(script![join(b, "b"), send(b, publ("t", 1, 1, "b1")), send(b, publ("t", 0, 0, "b2"))]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = if t == Tier::Quick { 2 } else { 16 };
    vary(s.std(), out);
}

pub fn c07(t: Tier, out: &mut Vec<Scenario>) {
    let ids = [1u16, 0x0100, 0xffff];
    let ops = |k: usize| -> Vec<C> {
        let id = ids[k % 3];
        vec![
            sub(id, &[("a", 0)]),
            sub(id.wrapping_add(7), &[("a", 2), ("b", 1), ("c/#", 0)]),
            unsub(id, &["a"]),
            unsub(id, &["zz", "a", "b"]),
            pub0("a", &format!("p{k}")),
            publ("a", 1, id, &format!("q{k}")),
            publ("b", 2, id, &format!("r{k}")),
            C::PubRel(id),
            C::PubRec(id),
            C::PubAck(id),
            C::PubComp(id),
            C::Ping,
            publ("nobody", 1, 0x1234, "x"),
            publ("nobody", 2, 0x1234, "x"),
            C::Publish { dup: true, qos: 1, retain: false, topic: "a".into(), pid: id, payload: vec![] },
            C::Publish { dup: true, qos: 2, retain: true, topic: "b".into(), pid: id, payload: vec![1; 200] },
            C::Publish { dup: false, qos: 1, retain: true, topic: "a".into(), pid: id, payload: vec![] },
            C::Publish { dup: false, qos: 0, retain: true, topic: "c/d".into(), pid: 0, payload: vec![] },
        ]
    };
    let n = if t == Tier::Quick { 4 } else { 5 };
    for (nm, mode) in [("one by one", 0), ("pipelined", 1)] {
        let mut s = Scenario::new(nm);
        s.autoack = false;
        let c = s.conn();
        let mut v = join(c, "c");
        for k in 0..n {
            let opts: Vec<Vec<Step>> = ops(k)
                .into_iter()
                .map(|p| if mode == 0 { script![send(c, p), Step::Quiet] } else { script![send(c, p)] })
                .collect();
            v.push(branch(opts));
        }
        v.push(Step::Quiet);
        v.push(send(c, C::Disconnect));
        s.actor(v);
        s.parts = 16;
        if mode == 1 {
            // the whole pipeline is there before the broker runs
            s.eager = true;
            s.cost[K::Early as usize] = OFF;
            s.cost[K::Pick as usize] = OFF;
        }
        out.push(s.std());
    }
    // all identifiers
    for hi in 0..=255u16 {
        let mut s = Scenario::new(format!("identifiers {hi:02x}xx"));
        let c = s.conn();
        let mut v = join(c, "c");
        for lo in 0..=255u16 {
            let id = hi << 8 | lo;
            if id == 0 {
                continue;
            }
            let one = match (lo + hi) % 6 {
                0 => sub(id, &[("a", 1)]),
                1 => unsub(id, &["a"]),
                2 => publ("x", 1, id, "1"),
                3 => publ("x", 2, id, "2"),
                4 => C::PubRel(id),
                _ => C::PubRec(id),
            };
            v.push(sends(c, &[one, C::Ping]));
        }
        s.actor(v);
        s.autoack = false;
        out.push(s.std());
    }
    // return codes: every number of filters, valid and invalid mixed
    for n in [1usize, 2, 3, 10, 60, 124, 125, 126, 127, 128, 129, 200, 255, 256, 257, 1000, 1025, 4097, 16_379, 16_382, 16_383, 20_000] {
        let mut s = Scenario::new(format!("{n} filters in a packet"));
        s.spin = 100_000;
        let c = s.conn();
        let fs: Vec<(String, u8)> = (0..n).map(|i| (if i % 7 == 3 { format!("x/#/{i}") } else { format!("x/{i}") }, (i % 3) as u8)).collect();
        let fr: Vec<(&str, u8)> = fs.iter().map(|f| (f.0.as_str(), f.1)).collect();
        let names: Vec<&str> = fs.iter().map(|f| f.0.as_str()).collect();
        s.actor(script![join(c, "c"), send(c, sub(5, &fr)), send(c, unsub(6, &names)), sends(c, &[sub(7, &fr), C::Ping, unsub(8, &names)])]);
        out.push(s.std());
    }
    // the same filter several times in a packet, next to others, some invalid
    let names = ["a", "a", "a/b", "#", "a#", "$share/g/a"];
    let max = if t == Tier::Quick { 3usize } else { 5 };
    for first_sub in [true, false] {
        for n in 1..=max {
            let mut s = Scenario::new(format!("{n} filters, repeated or not, first={first_sub}"));
            let c = s.conn();
            let mut opts = vec![];
            for k in 0..names.len().pow(n as u32) {
                let mut x = k;
                let mut fs = vec![];
                for i in 0..n {
                    let j = x % names.len();
                    x /= names.len();
                    // the two "a" differ in QoS
                    fs.push((names[j], if j == 0 { 0 } else { (i + j) as u8 % 3 }));
                }
                let us: Vec<&str> = fs.iter().map(|f| f.0).collect();
                opts.push(script![sends(c, &[sub(3, &fs), C::Ping, publ("a", 1, 9, "x"), unsub(4, &us), C::Ping]), Step::Quiet, sends(c, &[pub0("a", "y"), pub0("a/b", "z")])]);
            }
            s.actor(script![
                join(c, "c"),
                if first_sub { subd(c, 1, &[("a", 2), ("a/b", 2)]) } else { vec![] },
                branch(opts)
            ]);
            s.parts = 8;
            out.push(s.std());
        }
    }
    // long pipelines of one kind
    for (k, one) in [C::Ping, sub(1, &[("q", 0)]), unsub(1, &["q"]), publ("x", 1, 1, "1"), publ("x", 2, 1, "2"), C::PubRel(1), C::PubRec(1), publ("q", 1, 1, "")].into_iter().enumerate() {
        let mut s = Scenario::new(format!("pipeline of one kind {k}"));
        let c = s.conn();
        s.spin = 30_000;
        s.actor(script![join(c, "c"), subd(c, 2, &[("q", 1)]), sends(c, &vec![one; 1200]), Step::Quiet, send(c, C::Ping)]);
        out.push(s.std());
    }
    // long pipelines
    for n in [90usize, 101, 250, 1000] {
        let mut s = Scenario::new(format!("pipeline of {n}"));
        let c = s.conn();
        s.spin = 30_000;
        let ps: Vec<C> = (0..n)
            .map(|i| match i % 5 {
                0 => publ("x", 1, i as u16 + 1, "1"),
                1 => publ("x", 2, i as u16 + 1, "2"),
                2 => C::PubRel(i as u16),
                3 => C::Ping,
                _ => sub(i as u16 + 1, &[("q", 0)]),
            })
            .collect();
        s.actor(script![join(c, "c"), sends(c, &ps)]);
        out.push(s.std());
    }
    // requests that race with deliveries and with other clients
    let mut s = Scenario::new("schedules");
    let (a, b) = (s.conn(), s.conn());
    s.actor(script![
        join(a, "a"),
        sends(a, &[sub(1, &[("t", 1)]), publ("t", 1, 2, "a1"), C::Ping]),
        send(a, publ("t", 2, 3, "a2")),
        sends(a, &[C::PubRel(3), unsub(4, &["t"])]),
    ]);
    s.actor(script![join(b, "b"), sends(b, &[sub(1, &[("#", 2)]), publ("t", 2, 1, "b1")]), sends(b, &[C::PubRel(1), C::Ping])]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = 16;
    vary(s.std(), out);
}

pub fn c08(t: Tier, out: &mut Vec<Scenario>) {
    let n = if t == Tier::Quick { 4 } else { 6 };
    for (nm, pipelined) in [("histories", false), ("pipelined histories", true)] {
        let mut s = Scenario::new(nm);
        let (r, p) = (s.conn(), s.conn());
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", 2)]), join(p, "p")];
        for k in 0..n {
            let pl = |id: u16| format!("m{id}.{k}");
            let q2 = |id: u16, dup: bool| C::Publish { dup, qos: 2, retain: false, topic: "t".into(), pid: id, payload: pl(id).into_bytes() };
            let opts: Vec<Vec<Step>> = [
                q2(1, false),
                q2(1, true),
                q2(2, false),
                C::PubRel(1),
                C::PubRel(2),
                publ("t", 1, 1, &format!("q1.{k}")),
                C::PubAck(1),
                C::PubComp(1),
                C::PubRec(1),
                sub(1, &[("u", 0)]),
            ]
            .into_iter()
            .map(|p_| if pipelined { script![send(p, p_)] } else { script![send(p, p_), Step::Quiet] })
            .collect();
            v.push(branch(opts));
        }
        v.push(Step::Quiet);
        s.actor(v);
        s.parts = 16;
        if pipelined {
            s.eager = true;
            s.cost[K::Early as usize] = OFF;
            s.cost[K::Pick as usize] = OFF;
        }
        out.push(s.std());
    }
    // anything between the copies of a message and its release
    let mut s = Scenario::new("in between");
    let (r, p, q) = (s.conn(), s.conn(), s.conn());
    let q2 = |id: u16, dup: bool, topic: &str, pl: &str| C::Publish { dup, qos: 2, retain: false, topic: topic.into(), pid: id, payload: pl.as_bytes().to_vec() };
    let between = |k: usize| -> Vec<Vec<Step>> {
        let one = |p_: C| script![send(p, p_), Step::Quiet];
        vec![
            vec![],
            one(C::Ping),
            one(sub(1, &[("t", 2)])),
            one(sub(2, &[("u", 2)])),
            one(unsub(1, &["t"])),
            one(unsub(3, &["u"])),
            one(publ("t", 0, 0, &format!("zero{k}"))),
            one(publ("t", 1, 1, &format!("one{k}"))),
            one(q2(2, false, "t", &format!("other{k}"))),
            one(q2(2, true, "t", &format!("other{k}"))),
            one(C::PubRel(2)),
            one(C::PubAck(1)),
            one(C::PubRec(1)),
            one(C::PubComp(1)),
            script![send(q, q2(1, false, "t", &format!("of another{k}"))), Step::Quiet],
            script![send(q, C::PubRel(1)), Step::Quiet],
            script![sends(q, &(0..20).map(|i| pub0("t", &format!("b{k}.{i}"))).collect::<Vec<_>>()), Step::Quiet],
            script![Step::Advance(100_000), Step::Quiet],
        ]
    };
    s.actor(script![
        join(r, "r"),
        subd(r, 1, &[("t", 2), ("v", 1)]),
        join(q, "q"),
        join(p, "p"),
        branch(vec![vec![], subd(p, 9, &[("t", 2)])]),
        branch(vec![script![send(p, q2(1, false, "t", "m"))], script![send(p, q2(1, true, "t", "m"))]]),
        Step::Quiet,
        branch(between(1)),
        branch(vec![script![send(p, q2(1, true, "t", "m"))], script![send(p, q2(1, false, "t", "m"))], script![send(p, q2(1, true, "v", "m"))], script![send(p, q2(1, true, "t", ""))]]),
        Step::Quiet,
        branch(between(2)),
        branch(vec![script![send(p, C::PubRel(1)), Step::Quiet], vec![]]),
        send(p, q2(1, true, "t", "m")),
        Step::Quiet,
        send(p, C::PubRel(1)),
        send(p, q2(1, false, "t", "m")),
        Step::Quiet,
    ]);
    s.parts = 16;
    out.push(s.std());
    // two publishers use the same identifiers; one ends in the middle
    let mut s = Scenario::new("two publishers");
    let (r, a, b) = (s.conn(), s.conn(), s.conn());
    let mut v = script![join(r, "r"), subd(r, 1, &[("t", 0)]), join(a, "a"), join(b, "b")];
    for k in 0..n {
        let mut opts = vec![];
        for c in [a, b] {
            opts.push(script![send(c, publ("t", 2, 1, &format!("m{c}.{k}"))), Step::Quiet]);
            opts.push(script![send(c, C::PubRel(1)), Step::Quiet]);
        }
        v.push(branch(opts));
    }
    s.actor(v);
    s.parts = 8;
    out.push(s.std());
    // identifiers across a new connection of the same client (a clean session)
    let mut s = Scenario::new("new connection");
    let (r, a, b) = (s.conn(), s.conn(), s.conn());
    s.actor(script![
        join(r, "r"),
        subd(r, 1, &[("t", 2)]),
        join(a, "a"),
        send(a, publ("t", 2, 1, "a1")),
        Step::Quiet,
        branch(vec![script![send(a, C::Disconnect)], script![eof(a)], script![reset(a)], script![]]),
        Step::Quiet,
        join(b, "a"),
        send(b, publ("t", 2, 1, "b1")),
        Step::Quiet,
        send(b, publ("t", 2, 1, "b2")),
        Step::Quiet,
        send(b, C::PubRel(1)),
        send(b, publ("t", 2, 1, "b3")),
        Step::Quiet,
    ]);
    out.push(s.std());
    // every identifier at once, then all repeated, then released and used again
    for n in [100u16, 300, 2000, 65_535] {
        let mut s = Scenario::new(format!("{n} identifiers"));
        s.spin = 200_000;
        s.max_steps = 10_000_000;
        let (r, p) = (s.conn(), s.conn());
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", 1)]), join(p, "p")];
        let ids: Vec<u16> = (0..n).map(|i| i.wrapping_mul(257).wrapping_add(1)).filter(|i| *i > 0).collect();
        for (round, kind) in ["first", "again", "released", "fresh"].iter().enumerate() {
            for ch in ids.chunks(50) {
                let ps: Vec<C> = ch
                    .iter()
                    .map(|i| match round {
                        2 => C::PubRel(*i),
                        _ => C::Publish { dup: round == 1, qos: 2, retain: false, topic: "t".into(), pid: *i, payload: format!("{kind}{i}").into_bytes() },
                    })
                    .collect();
                v.push(sends(p, &ps));
                v.push(Step::Quiet);
            }
        }
        s.actor(v);
        out.push(s.std());
    }
    // retransmission while the first copy is on its way
    let mut s = Scenario::new("schedules");
    let (r, p, q) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(r, "r"), subd(r, 1, &[("t", 2)])]);
    s.actor(script![
        join(p, "p"),
        send(p, publ("t", 2, 1, "m1")),
        send(p, C::Publish { dup: true, qos: 2, retain: false, topic: "t".into(), pid: 1, payload: b"m1".to_vec() }),
        sends(p, &[C::PubRel(1), publ("t", 2, 1, "m2")]),
    ]);
    s.actor(script![join(q, "q"), send(q, publ("t", 2, 1, "q1")), send(q, C::PubRel(1)), send(q, publ("t", 2, 1, "q2"))]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = 16;
    vary(s.std(), out);
}

/// A conversation that uses every packet type. Returns (packets of the client, topic it hears).
fn conversation() -> Vec<C> {
    vec![
        conn("p"),
        sub(1, &[("t/+", 1), ("u", 2)]),
        publ("t/a", 1, 2, "one"),
        publ("u", 2, 3, "two"),
        C::PubRel(3),
        C::Ping,
        pub0("t/b", ""),
        unsub(4, &["t/+"]),
        pub0("u", "three"),
        C::Disconnect,
    ]
}

/// The answers each connection was sent, in order. (Deliveries are judged by the model: whether one
/// to a connection that is about to close still goes out is a matter of timing, and so is where the
/// PUBRELs that continue a delivery come among the answers.)
fn transcript(r: &Run, c: usize) -> Vec<S> {
    r.obs.conns[c].got.iter().filter(|s| !matches!(s, S::Publish { .. } | S::PubRel(_))).cloned().collect()
}

/// Standard rules, and the same transcript on every connection as when nothing is split.
fn same_as(reference: &Scenario) -> Oracle {
    let mut r = reference.clone();
    r.oracle = Arc::new(|_, _| {});
    let r = Arc::new(r);
    let cell: Arc<std::sync::OnceLock<Vec<Vec<S>>>> = Arc::new(std::sync::OnceLock::new());
    Arc::new(move |run, bad| {
        monitor(run, Opt::default(), bad);
        let want = cell.get_or_init(|| {
            let (x, _) = execute(&r, &[]);
            (0..x.obs.conns.len()).map(|c| transcript(&x, c)).collect()
        });
        for c in 0..run.obs.conns.len() {
            if transcript(run, c) != want[c] {
                bad.push(format!("c{c} is sent something else than without splitting: {:?} instead of {:?}", transcript(run, c), want[c]));
            }
        }
    })
}

pub fn c09(t: Tier, out: &mut Vec<Scenario>) {
    let bytes: Vec<u8> = conversation().iter().flat_map(|p| p.enc()).collect();
    let len = bytes.len();
    let build = |name: String, cuts: &[usize], quiet: bool, chunk: usize| -> Scenario {
        let mut s = Scenario::new(name);
        let (r, p) = (s.conn(), s.conn());
        s.write_chunk = chunk;
        let mut v = script![join(r, "r"), subd(r, 1, &[("#", 2)]), open(p)];
        let mut at = 0;
        for c in cuts.iter().copied().chain([len]) {
            v.push(raw(p, bytes[at..c].to_vec()));
            if quiet {
                v.push(Step::Quiet);
            }
            at = c;
        }
        v.push(Step::Quiet);
        s.actor(v);
        s
    };
    let reference = build("reference".into(), &[], true, 0);
    let oracle = same_as(&reference);
    let fin = |mut s: Scenario, out: &mut Vec<Scenario>| {
        s.oracle = oracle.clone();
        out.push(s);
    };
    fin(build("unsplit".into(), &[], true, 0), out);
    for i in 1..len {
        fin(build(format!("cut at {i}"), &[i], true, 0), out);
    }
    // two and three cuts
    let step = if t == Tier::Quick { 3 } else { 1 };
    for i in 1..len {
        for chunk in if i % 4 == 0 || t == Tier::Thorough { vec![0usize, 1] } else { vec![0] } {
            let mut s = Scenario::new(format!("cut at {i} and at one or two more places, writes of {chunk}"));
            s.write_chunk = chunk;
            let (r, p) = (s.conn(), s.conn());
            let mut opts = vec![];
            for j in i + 1..len {
                opts.push(script![raw(p, bytes[i..j].to_vec()), Step::Quiet, raw(p, bytes[j..].to_vec()), Step::Quiet]);
                if (i + j) % step == 0 {
                    for k in (j + 1..len).step_by(step) {
                        opts.push(script![
                            raw(p, bytes[i..j].to_vec()),
                            Step::Quiet,
                            raw(p, bytes[j..k].to_vec()),
                            Step::Quiet,
                            raw(p, bytes[k..].to_vec()),
                            Step::Quiet
                        ]);
                    }
                }
            }
            if opts.is_empty() {
                continue;
            }
            s.actor(script![join(r, "r"), subd(r, 1, &[("#", 2)]), open(p), raw(p, bytes[..i].to_vec()), Step::Quiet, branch(opts)]);
            fin(s, out);
        }
    }
    for k in 1..=40 {
        let cuts: Vec<usize> = (1..len).filter(|i| i % k == 0).collect();
        for q in [true, false] {
            for w in [0usize, 1, 2, 3, 5] {
                fin(build(format!("pieces of {k} quiet={q} writes of {w}"), &cuts, q, w), out);
            }
        }
    }
    // every way to cut a short conversation
    let short: Vec<(&str, Vec<C>)> = vec![
        ("PUBLISH, PINGREQ", vec![publ("t", 1, 2, "x"), C::Ping]),
        ("SUBSCRIBE, PINGREQ", vec![sub(3, &[("u", 1)]), C::Ping]),
        ("UNSUBSCRIBE, PUBREL", vec![unsub(3, &["t"]), C::PubRel(9)]),
        ("PUBLISH, PUBREL", vec![publ("t", 2, 2, ""), C::PubRel(2)]),
        ("PINGREQs, DISCONNECT", vec![C::Ping, C::Ping, C::Ping, C::Disconnect]),
        ("PUBACK, PUBREC, PUBCOMP", vec![C::PubAck(1), C::PubRec(2), C::PubComp(2)]),
    ];
    for (nm, ps) in &short {
        for quiet in [true, false] {
            for chunk in [0usize, 1, 2] {
                let b2: Vec<u8> = ps.iter().flat_map(|p| p.enc()).collect();
                let n = b2.len() - 1;
                let mut s = Scenario::new(format!("every way to cut {nm}, quiet={quiet}, writes of {chunk}"));
                let (r, p) = (s.conn(), s.conn());
                s.write_chunk = chunk;
                let mut opts = vec![];
                for mask in 0..1u32 << n {
                    let mut v = vec![];
                    let mut at = 0;
                    for i in 0..n {
                        if mask >> i & 1 == 1 {
                            v.push(raw(p, b2[at..=i].to_vec()));
                            if quiet {
                                v.push(Step::Quiet);
                            }
                            at = i + 1;
                        }
                    }
                    v.push(raw(p, b2[at..].to_vec()));
                    opts.push(v);
                }
                s.actor(script![
                    join(r, "r"),
                    subd(r, 1, &[("t", 1)]),
                    join(p, "p"),
                    subd(p, 1, &[("t", 2)]),
                    send(r, pub0("t", "before")),
                    branch(opts),
                    send(r, pub0("t", "after"))
                ]);
                s.parts = 4;
                out.push(s.std());
            }
        }
    }
    // every way to cut a CONNECT
    for quiet in [true, false] {
        let mut b2 = conn("p").enc();
        if t == Tier::Quick {
            b2 = C::Connect(Connect { id: String::new(), ..connect("") }).enc();
        }
        let n = b2.len() - 1;
        let mut s = Scenario::new(format!("every way to cut CONNECT, quiet={quiet}"));
        let p = s.conn();
        let mut opts = vec![];
        for mask in 0..1u32 << n {
            let mut v = vec![];
            let mut at = 0;
            for i in 0..n {
                if mask >> i & 1 == 1 {
                    v.push(raw(p, b2[at..=i].to_vec()));
                    if quiet {
                        v.push(Step::Quiet);
                    }
                    at = i + 1;
                }
            }
            v.push(raw(p, b2[at..].to_vec()));
            opts.push(v);
        }
        s.actor(script![open(p), branch(opts), send(p, C::Ping)]);
        s.parts = 8;
        out.push(s.std());
    }
    // big packets in pieces, several in a segment, around buffer sizes
    for n in [100usize, 127, 128, 4000, 8180, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8200, 16370, 16380, 16383, 16384, 20000, 40000, 70000] {
        for (nm, piece, wr) in [("1000", 1000usize, 0usize), ("4096", 4096, 1), ("8191", 8191, 0), ("8192", 8192, 4096), ("whole", usize::MAX, 1000), ("1460", 1460, 0), ("tail", 0, 7)] {
            let mut s = Scenario::new(format!("payload {n} in pieces {nm}, writes of {wr}"));
            let (r, p) = (s.conn(), s.conn());
            s.spin = 400_000;
            s.max_steps = 2_000_000;
            s.write_chunk = wr;
            let mut b: Vec<u8> = pub0("t", "head").enc();
            b.extend(pubb("t", 1, 1, fill(n, 1)).enc());
            b.extend(pubb("t", 2, 2, fill(n + 1, 2)).enc());
            b.extend(C::PubRel(2).enc());
            b.extend(pub0("t", "tail").enc());
            let mut v = script![join(r, "r"), subd(r, 1, &[("t", 1)]), join(p, "p")];
            if piece == 0 {
                // all but the last byte of each packet first
                let cut = [pub0("t", "head").enc().len(), pub0("t", "head").enc().len() + pubb("t", 1, 1, fill(n, 1)).enc().len()];
                let mut at = 0;
                for c in cut {
                    v.push(raw(p, b[at..c - 1].to_vec()));
                    v.push(Step::Quiet);
                    at = c - 1;
                }
                v.push(raw(p, b[at..].to_vec()));
            } else {
                for ch in b.chunks(piece.min(b.len())) {
                    v.push(raw(p, ch.to_vec()));
                    if n % 2 == 0 {
                        v.push(Step::Quiet);
                    }
                }
            }
            s.actor(v);
            out.push(s.std());
        }
    }
    // a length field that arrives byte by byte
    for n in [130usize, 17000, 2_100_000] {
        let mut s = Scenario::new(format!("length field of {n} split"));
        let (r, p) = (s.conn(), s.conn());
        s.spin = 50_000;
        let b = pubb("t", 0, 0, fill(n, 1)).enc();
        let mut v = script![join(r, "r"), subd(r, 1, &[("t", 1)]), join(p, "p")];
        for i in 0..6 {
            v.push(raw(p, b[i..i + 1].to_vec()));
            v.push(Step::Quiet);
        }
        v.push(raw(p, b[6..].to_vec()));
        v.push(send(p, C::Ping));
        s.actor(v);
        out.push(s.std());
    }
    // a packet in two halves while deliveries for the same client arrive in between
    let mut s = Scenario::new("halves and deliveries");
    let (a, b) = (s.conn(), s.conn());
    s.cost[K::Write as usize] = 1;
    let pk = publ("t", 1, 2, "abcdef").enc();
    let mut opts = vec![];
    for i in 1..pk.len() {
        opts.push(script![raw(a, pk[..i].to_vec()), send(b, pub0("t", "b1")), raw(a, pk[i..].to_vec()), send(b, pub0("t", "b2"))]);
    }
    s.actor(script![join(a, "a"), subd(a, 1, &[("t", 0)]), join(b, "b"), branch(opts)]);
    s.budget = 1;
    s.parts = 16;
    vary(s.std(), out);
    // segments arriving while the broker works, and partial writes
    let mut s = Scenario::new("schedules");
    let (a, b) = (s.conn(), s.conn());
    s.cost[K::Write as usize] = 1;
    let pk: Vec<u8> = [sub(1, &[("t", 1)]), publ("t", 1, 2, "abc"), C::Ping].iter().flat_map(|p| p.enc()).collect();
    s.actor(script![join(a, "a"), raw(a, pk[..5].to_vec()), raw(a, pk[5..14].to_vec()), raw(a, pk[14..].to_vec())]);
    s.actor(script![join(b, "b"), raw(b, publ("t", 0, 0, "xyz").enc()[..4].to_vec()), raw(b, publ("t", 0, 0, "xyz").enc()[4..].to_vec())]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = 16;
    vary(s.std(), out);
}

/// Attacker `x` sends `opts`, between packets that are in order; a bystander talks meanwhile.
fn attack(name: &str, connected: bool, opts: Vec<Vec<u8>>, out: &mut Vec<Scenario>) {
    let mut s = Scenario::new(name);
    let (x, b) = (s.conn(), s.conn());
    let branches: Vec<Vec<Step>> = opts
        .into_iter()
        .map(|o| {
            let mut bytes = vec![];
            if connected {
                bytes.extend(pub0("w", "before").enc());
            }
            bytes.extend(&o);
            bytes.extend(pub0("w", "after").enc());
            bytes.extend(sub(99, &[("v", 0)]).enc());
            script![raw(x, bytes)]
        })
        .collect();
    let first = if connected {
        script![join(x, "x"), subd(x, 1, &[("w", 1)])]
    } else {
        script![open(x)]
    };
    s.actor(script![
        join(b, "b"),
        subd(b, 1, &[("#", 2)]),
        first,
        branch(branches),
        Step::Quiet,
        sends(b, &[pub0("w", "bystander"), publ("v", 1, 5, "v"), C::Ping]),
        await_n(b, S::PingResp, 1),
        Step::Quiet
    ]);
    s.probe();
    s.parts = 16;
    out.push(s.std());
}

pub fn c10(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    let valid: Vec<(&str, Vec<u8>)> = vec![
        ("publish0", pub0("ab", "xy").enc()),
        ("publish1", publ("ab", 1, 5, "x").enc()),
        ("publish2", publ("a", 2, 5, "").enc()),
        ("subscribe", sub(6, &[("q", 1)]).enc()),
        ("subscribe2", sub(6, &[("q", 1), ("a/#", 0)]).enc()),
        ("unsubscribe", unsub(7, &["w", "q"]).enc()),
        ("puback", C::PubAck(1).enc()),
        ("pubrec", C::PubRec(1).enc()),
        ("pubrel", C::PubRel(1).enc()),
        ("pubcomp", C::PubComp(1).enc()),
        ("ping", C::Ping.enc()),
        ("disconnect", C::Disconnect.enc()),
        ("connect", conn("again").enc()),
    ];
    let mut full = connect("xid");
    full.will = Some(("w/t".into(), vec![0xff, 0], 1, true));
    full.user = Some("us".into());
    full.pass = Some(vec![1, 0xfe]);
    let full = C::Connect(full).enc();
    // every change of one byte of every packet
    for (n, p) in &valid {
        let mut opts = vec![];
        for i in 0..p.len() {
            for b in 0..=255u8 {
                // longer remaining lengths only swallow what follows: a few suffice
                if i == 1 && b > 40 && !(b >= 126 && b <= 130) && b != 255 && !thorough {
                    continue;
                }
                let mut q = p.clone();
                q[i] = b;
                if q != *p {
                    opts.push(q);
                }
            }
        }
        attack(&format!("one byte of {n}"), true, opts, out);
    }
    let mut opts = vec![];
    for i in 0..full.len() {
        for b in 0..=255u8 {
            let mut q = full.clone();
            q[i] = b;
            opts.push(q);
        }
    }
    attack("one byte of CONNECT", false, opts, out);
    // bytes removed, inserted, doubled; with the length field adjusted or not
    for (n, p) in valid.iter().map(|x| (x.0, x.1.clone())).chain([("CONNECT", full.clone())]) {
        let mut opts = vec![];
        for i in 2..p.len() {
            for adjust in [false, true] {
                let mut del = p.clone();
                del.remove(i);
                let mut dbl = p.clone();
                dbl.insert(i, p[i]);
                let mut z = p.clone();
                z.insert(i, 0);
                let cut = p[..i].to_vec();
                for mut q in [del, dbl, z, cut] {
                    if adjust {
                        q[1] = (q.len() - 2) as u8;
                    }
                    opts.push(q);
                }
            }
        }
        for extra in 1..=3 {
            let mut q = p.clone();
            q.extend(vec![b'z'; extra]);
            q[1] += extra as u8;
            opts.push(q);
        }
        attack(&format!("shifted {n}"), n != "CONNECT", opts, out);
    }
    // all short packets: every first byte with every short body over an alphabet
    let alpha: &[u8] = &[0, 1, 2, b'a', 0x80, 0xff];
    let mut bodies: Vec<Vec<u8>> = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..if thorough { 4 } else { 3 } {
        let mut next = vec![];
        for c in &cur {
            for &a in alpha {
                let mut x = c.clone();
                x.push(a);
                next.push(x);
            }
        }
        bodies.extend(next.iter().cloned());
        cur = next;
    }
    for connected in [true, false] {
        for hi in 0..16u8 {
            let mut opts = vec![];
            for lo in 0..16u8 {
                for b in &bodies {
                    if b.len() >= 3 && !thorough && lo > 3 && hi != 3 {
                        continue;
                    }
                    if b.len() >= 4 && lo > 3 {
                        continue;
                    }
                    opts.push(frame(hi << 4 | lo, b));
                }
            }
            attack(&format!("short packets {hi:x}x connected={connected}"), connected, opts, out);
        }
    }
    // length fields
    let mut opts = vec![];
    for first in [0x10u8, 0x30, 0x32, 0x82, 0xa2, 0x40, 0xc0, 0xe0, 0x00, 0xf0, 0xff] {
        for l in [
            vec![0x80, 0x80, 0x80, 0x80],
            vec![0xff, 0xff, 0xff, 0xff],
            vec![0xff, 0xff, 0xff, 0x80, 0x01],
            vec![0x80, 0x80, 0x80, 0x80, 0x00],
            vec![0x80, 0x00],
            vec![0x82, 0x00, 0x00, 0x01],
            vec![0x80, 0x80, 0x80, 0x00],
            vec![0xff, 0xff, 0xff, 0x7f],
            vec![0xff, 0x7f],
            vec![0xff],
        ] {
            let mut p = vec![first];
            p.extend(l);
            opts.push(p);
        }
    }
    attack("length fields connected", true, opts.clone(), out);
    attack("length fields unconnected", false, opts, out);
    // strings: invalid UTF-8, U+0000, and lengths that lie, in every string field
    let strs: Vec<Vec<u8>> = vec![
        vec![0xff],
        vec![0xc3],
        vec![b'a', 0xc3],
        vec![0xe2, 0x82],
        vec![0xed, 0xa0, 0x80],
        vec![0xc0, 0x80],
        vec![0xf4, 0x90, 0x80, 0x80],
        vec![0xf0, 0x80, 0x80, 0xaf],
        vec![0],
        vec![b'a', 0, b'b'],
        vec![0xef, 0xbb, 0xbf],
        "\u{1}\u{7f}\u{ffff}".as_bytes().to_vec(),
    ];
    let (mut opts, mut copts) = (vec![], vec![]);
    for s in &strs {
        let f = |pre: &[u8], post: &[u8], first: u8| {
            let mut b = pre.to_vec();
            put_str(&mut b, s);
            b.extend_from_slice(post);
            frame(first, &b)
        };
        opts.push(f(&[], b"pay", 0x30));
        opts.push(f(&[], b"\0\x05pay", 0x34));
        opts.push(f(&[0, 9], &[1], 0x82));
        opts.push(f(&[0, 9, 0, 1, b'q', 0], &[1], 0x82));
        opts.push(f(&[0, 9], &[], 0xa2));
        opts.push(f(&[0, 9, 0, 1, b'w'], &[], 0xa2));
        let head = |fl: u8| {
            let mut b = vec![];
            put_str(&mut b, b"MQTT");
            b.extend([4, fl, 0, 0]);
            b
        };
        copts.push(f(&head(2), &[], 0x10));
        let id = |fl: u8| {
            let mut h = head(fl);
            put_str(&mut h, b"xid");
            h
        };
        copts.push(f(&id(6), &[0, 1, b'm'], 0x10)); // will topic
        let mut h = id(6);
        put_str(&mut h, b"wt");
        copts.push(f(&h, &[], 0x10)); // will payload: binary
        copts.push(f(&id(0x82), &[], 0x10)); // user name
        let mut h = id(0xc2);
        put_str(&mut h, b"us");
        copts.push(f(&h, &[], 0x10)); // password: binary
        // protocol name
        let mut b = vec![];
        put_str(&mut b, s);
        b.extend([4, 2, 0, 0, 0, 1, b'x']);
        copts.push(frame(0x10, &b));
    }
    attack("strings connected", true, opts, out);
    attack("strings unconnected", false, copts, out);
    // raw bytes before CONNECT
    let mut opts: Vec<Vec<u8>> = vec![b"GET / HTTP/1.1\r\n\r\n".to_vec(), vec![0; 300], vec![0xff; 300], vec![0x30; 300], b"\x16\x03\x01\x02\x00\x01".to_vec()];
    for b in 0..=255u8 {
        opts.push(vec![b]);
        opts.push(vec![b, b]);
        opts.push(vec![b, 0]);
    }
    attack("raw bytes", false, opts, out);
    // deep and long topics and filters
    let mut deep = vec![];
    for n in [100usize, 1000, 10_000, 32_767, 65_535] {
        for unit in ["/", "a/", "+/"] {
            let tp: String = unit.repeat(n).chars().take(65_535).collect();
            if valid_topic(&tp) {
                deep.push((format!("publish {n} x {unit}"), publ(&tp, 1, 3, "deep")));
            }
            deep.push((format!("unsubscribe {n} x {unit}"), unsub(3, &[&tp])));
            // deep filters may be refused: the oracle below only asks for SUBACK and survival
            deep.push((format!("subscribe {n} x {unit}"), sub(3, &[&(tp.clone() + "#")[..]].map(|f| (&f[..f.len().min(65_535)], 1)))));
        }
    }
    for (n, p) in deep {
        let mut s = Scenario::new(format!("deep {n}"));
        let (x, b) = (s.conn(), s.conn());
        s.spin = 30_000;
        s.actor(script![
            join(b, "b"),
            subd(b, 1, &[("w", 1)]),
            join(x, "x"),
            send(x, p.clone()),
            send(x, p.clone()),
            Step::Quiet,
            send(x, publ(&"a/".repeat(20_000), 0, 0, "deep0")),
            Step::Quiet,
            branch(vec![script![send(x, C::Disconnect)], script![reset(x)]]),
            Step::Quiet,
            send(b, pub0("w", "still here")),
            await_pubs(b, 1),
        ]);
        s.probe();
        s.oracle = Arc::new(move |r, bad| {
            let mut v = vec![];
            monitor(r, Opt::default(), &mut v);
            // whether a filter this deep is granted is open
            v.retain(|m| !m.contains("SubAck") && !m.contains("deep"));
            bad.extend(v);
        });
        out.push(s);
    }
    // a malformed packet among others, under all schedules
    for (n, b) in [("publish", frame(0x36, b"\0\x01w")), ("short", frame(0x82, b"\0")), ("type", frame(0xf0, b""))] {
        let mut s = Scenario::new(format!("schedules {n}"));
        let (x, y) = (s.conn(), s.conn());
        let mut bytes = publ("w", 1, 4, "good").enc();
        bytes.extend(b);
        bytes.extend(pub0("w", "never").enc());
        s.actor(script![join(y, "y"), subd(y, 1, &[("w", 1)]), send(y, publ("w", 1, 2, "y"))]);
        s.actor(script![join(x, "x"), subd(x, 1, &[("w", 0)]), raw(x, bytes)]);
        s.probe();
        s.budget = if thorough { 2 } else { 1 };
        s.parts = if thorough { 16 } else { 2 };
        vary(s.std(), out);
    }
}
