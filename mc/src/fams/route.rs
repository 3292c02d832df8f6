//! Routing: C01, C02, C19, C20.

use super::vary;
use crate::codec::*;
use crate::engine::*;
use crate::scen::*;
use crate::script;
use crate::Tier;


/// All level sequences up to `depth` over `lits`.
fn paths(lits: &[&str], depth: usize) -> Vec<String> {
    let mut all = vec![];
    let mut cur: Vec<String> = vec![];
    for d in 0..depth {
        let mut next = vec![];
        if d == 0 {
            for l in lits {
                next.push(l.to_string());
            }
        } else {
            for p in &cur {
                for l in lits {
                    next.push(format!("{p}/{l}"));
                }
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}

fn topics(lits: &[&str], depth: usize) -> Vec<String> {
    paths(lits, depth).into_iter().filter(|t| valid_topic(t)).collect()
}
fn filters(lits: &[&str], depth: usize) -> Vec<String> {
    let mut l = lits.to_vec();
    l.extend(["+", "#"]);
    paths(&l, depth).into_iter().filter(|f| valid_filter(f)).collect()
}

/// `c` publishes to every topic, with distinct payloads, in chunks.
fn publish_all(c: usize, ts: &[String], tag: &str) -> Vec<Step> {
    let mut v = vec![];
    for (k, ch) in ts.chunks(40).enumerate() {
        let ps: Vec<C> = ch.iter().enumerate().map(|(i, t)| pub0(t, &format!("{tag}{}", k * 40 + i))).collect();
        v.push(sends(c, &ps));
        v.push(Step::Quiet);
    }
    v
}

fn special() -> Vec<(String, String)> {
    // filters and topics with unusual levels, all against all
    let long = "x".repeat(300);
    let huge = "y".repeat(65000);
    let deep = vec!["d"; 60].join("/");
    let deep2 = format!("{}/e", vec!["d"; 60].join("/"));
    let s: Vec<String> = [
        "A", "a", "aa", " ", "a ", " a", "é", "e\u{301}", "日本/語", "日本", "a\u{1}", "$", "$a", "a$", "a/$b", "/$a", "/", "//", "a/", "/a",
        "$SYS", "$SYS/broker", "$SYS/", "sys", "$SYS2/broker", "a//", "a//b", "a/b/c/d/e/f/g/h", "\u{fffd}", "\u{10ffff}", "share/g/a",
        "$shared/g/a", "$share2/x", "%s", "\\", "a.b", "*", "?", "a\nb",
    ]
    .iter()
    .map(|x| x.to_string())
    .chain([long, huge, deep, deep2])
    .collect();
    s.iter().map(|x| (x.clone(), x.clone())).collect()
}

pub fn c01(t: Tier, out: &mut Vec<Scenario>) {
    let depth = if t == Tier::Quick { 3 } else { 4 };
    let lits: &[&str] = if t == Tier::Quick { &["", "a", "b", "$s"] } else { &["", "a", "$s"] };
    let ts = topics(lits, depth);
    let fs = filters(lits, depth);
    // one filter
    for f in &fs {
        let mut s = Scenario::new(format!("one filter {f}"));
        let (r, p) = (s.conn(), s.conn());
        s.actor(script![join(r, "r"), subd(r, 1, &[(f, 1)]), join(p, "p"), publish_all(p, &ts, "m")]);
        out.push(s.std());
    }
    // one filter with unusual names, which some might take for equal
    let alike = [
        "A", "a", "AB", "ab", "aB", "a b", "a  b", "a+".trim_end_matches('+'), " a", "a ", "a\t", "\u{a0}a", "é", "É", "e\u{301}", "ß", "ss", "ﬁ", "fi", "İ", "i\u{307}", "I", "i", "ı", "K", "k", "\u{212a}",
        "σ", "ς", "日", "a\u{1}", "\u{7f}", "\u{200b}a", "\u{feff}a", "a\u{200d}", "$", "$a", "a$", "a.", "a..", ".", "..", ".a", "%61", "a%20b", "\\a", "a\\", "a.b", "*", "?", "a\nb", "a\r", "1", "01", "1.0", "+1".trim_start_matches('+'),
        "0", "-1", "true", "null", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "aaaaaaaa", "aaaaaaa", "a,b", "a;b", "a:b", "a|b", "a'b", "a\"b", "", "&", "~", "`", "{a}", "[a]", "(a)", "<a>", "@a", "a=b", "_", "-", "a-b", "a_b",
    ];
    let mut alike: Vec<&str> = alike.to_vec();
    alike.sort();
    alike.dedup();
    let all: Vec<String> = alike.iter().filter(|n| !n.is_empty()).map(|n| n.to_string()).chain(alike.iter().map(|n| format!("q/{n}/r"))).chain(alike.iter().map(|n| format!("{n}/s"))).collect();
    for n in &alike {
        let mut s = Scenario::new(format!("one unusual name {n:?}"));
        s.spin = 100_000;
        let (x, y, z, p) = (s.conn(), s.conn(), s.conn(), s.conn());
        let mut v = script![join(x, "x"), join(y, "y"), join(z, "z"), join(p, "p"), subd(y, 1, &[(&format!("q/{n}/r"), 0)]), subd(z, 1, &[(&format!("{n}/+"), 0)])];
        if !n.is_empty() {
            v.extend(subd(x, 1, &[(n, 0)]));
        }
        v.extend(publish_all(p, &all, "m"));
        s.actor(v);
        out.push(s.std());
    }
    // pairs: on one client each, and both on a third
    let ps: Vec<String> = {
        let mut v = filters(&["", "a"], 2);
        v.extend(
            ["a/b", "a/b/#", "a/+/b", "+/b", "+/b/#", "$s/#", "$s/+", "$s/a", "+/+/+", "a/+/#", "+/+/#", "b", "b/#", "#", "+"].map(String::from),
        );
        v.sort();
        v.dedup();
        v
    };
    let pt = topics(&["", "a", "b", "$s"], 3);
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            let mut s = Scenario::new(format!("two filters {} {}", ps[i], ps[j]));
            let (x, y, z, p) = (s.conn(), s.conn(), s.conn(), s.conn());
            s.hash_seed = (i * 64 + j) as u64;
            s.actor(script![
                join(x, "x"),
                subd(x, 1, &[(&ps[i], 0)]),
                join(y, "y"),
                subd(y, 1, &[(&ps[j], 0)]),
                join(z, "z"),
                subd(z, 1, &[(&ps[i], 0), (&ps[j], 0)]),
                join(p, "p"),
                publish_all(p, &pt, "m")
            ]);
            out.push(s.std());
        }
    }
    // everything at once: one client per filter, and one with all of them
    for seed in 0..2 {
        let f2 = filters(&["", "a", "b"], 3);
        let mut s = Scenario::new(format!("all filters at once {seed}"));
        s.hash_seed = seed;
        s.spin = 100_000;
        let p = s.conn();
        let z = s.conn();
        let mut v = script![join(p, "p"), join(z, "z")];
        for (i, f) in f2.iter().enumerate() {
            let c = s.conn();
            v.extend(join(c, &format!("r{i}")));
            v.extend(subd(c, 1, &[(f, (i % 3) as u8)]));
            v.extend(subd(z, i as u16 + 1, &[(f, (i % 3) as u8)]));
        }
        v.extend(publish_all(p, &pt, "m"));
        s.actor(v);
        out.push(s.std());
    }
    // unusual levels
    let sp = special();
    let st: Vec<String> = sp.iter().map(|x| x.1.clone()).collect();
    for (f, _) in &sp {
        let mut s = Scenario::new(format!("special {}", Short(f.as_bytes())));
        if out.iter().any(|o| o.name == s.name) {
            s.name += &format!(" {}", f.len());
        }
        let (r, p) = (s.conn(), s.conn());
        s.actor(script![
            join(r, "r"),
            subd(r, 1, &[(f, 0), (&format!("{}/#", &f[..f.len().min(60000)]), 0), (&format!("+/{}", &f[..f.len().min(60000)]), 0)]),
            join(p, "p"),
            publish_all(p, &st, "m")
        ]);
        if f.len() < 70000 && valid_filter(f) && f.is_char_boundary(f.len().min(60000)) {
            out.push(s.std());
        }
    }
    for f in ["#", "+", "+/#", "+/+", "+/+/#", "/#", "/+"] {
        let mut s = Scenario::new(format!("special {f}"));
        let (r, p) = (s.conn(), s.conn());
        s.actor(script![join(r, "r"), subd(r, 1, &[(f, 0)]), join(p, "p"), publish_all(p, &st, "m")]);
        out.push(s.std());
    }
    // levels that differ in one place, of every length
    let lens: Vec<usize> = if t == Tier::Quick {
        (1..70).chain([127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65533]).collect()
    } else {
        (1..600).chain((10..16).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).chain([65533]).collect()
    };
    for n in lens {
        let mut s = Scenario::new(format!("similar levels of length {n}"));
        let (r, p) = (s.conn(), s.conn());
        let base = "x".repeat(n);
        let with = |at: usize, c: &str| format!("{}{c}{}", &base[..at], &base[at + 1..]);
        let mut ts = vec![base.clone(), with(0, "y"), with(n / 2, "y"), with(n - 1, "y"), with(n - 1, "X"), with(0, "X"), base[1..].to_string(), format!("{base}x")];
        ts.extend(["x", "/", "y/"].iter().map(|e| format!("{e}{base}")));
        ts.push(format!("{base}/x"));
        ts.sort();
        ts.dedup();
        ts.retain(|t| valid_topic(t));
        let mut v = script![join(r, "r"), join(p, "p")];
        // one of them, then another
        for (k, f) in [base.clone(), with(n - 1, "y")].iter().enumerate() {
            v.extend(subd(r, k as u16 + 1, &[(f, 0)]));
            v.extend(publish_all(p, &ts, &format!("m{k}")));
        }
        v.extend(unsubd(r, 9, &[&base]));
        v.extend(publish_all(p, &ts, "n"));
        s.actor(v);
        out.push(s.std());
    }
    // filters and topics of every depth
    let deep: Vec<usize> = if t == Tier::Quick {
        (3..20).chain([31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 150, 191, 192, 193, 198, 199, 200]).collect()
    } else {
        (3..=200).collect()
    };
    for n in deep {
        let mut s = Scenario::new(format!("{n} levels"));
        let (x, y, p) = (s.conn(), s.conn(), s.conn());
        let l = |k: usize| -> Vec<String> { (0..k).map(|i| ["a", "b", "c"][i % 3].to_string()).collect() };
        let set = |k: usize, at: usize, w: &str| {
            let mut v = l(k);
            v[at] = w.into();
            v.join("/")
        };
        let fs = [
            l(n).join("/"),
            set(n, n - 1, "+"),
            set(n, n - 1, "#"),
            set(n, n / 2, "+"),
            set(n, 0, "+"),
            vec!["+"; n].join("/"),
            format!("{}#", "+/".repeat(n - 1)),
            set(n - 1, n - 2, "#"),
        ];
        let mut ts = vec![
            l(n).join("/"),
            l(n + 1).join("/"),
            l(n - 1).join("/"),
            l(n - 2).join("/"),
            set(n, n - 1, "z"),
            set(n, n / 2, "z"),
            set(n, 0, "z"),
            set(n, n - 1, ""),
            set(n, n - 2, "z"),
            l(n + 100).join("/"),
            format!("{}/", l(n).join("/")),
        ];
        ts.sort();
        ts.dedup();
        let mut v = script![join(x, "x"), join(y, "y"), join(p, "p")];
        for (k, f) in fs.iter().enumerate() {
            v.extend(subd(x, k as u16 + 1, &[(f, 0)]));
            if k % 2 == 0 {
                v.extend(subd(y, k as u16 + 1, &[(f, 1)]));
            }
            v.extend(publish_all(p, &ts, &format!("m{k}.")));
            v.extend(unsubd(x, k as u16 + 1, &[f]));
        }
        v.extend(publish_all(p, &ts, "n"));
        s.actor(v);
        out.push(s.std());
    }
    // topics deeper than any filter
    for n in [199usize, 200, 201, 202, 250, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384, 20_000, 32_767, 32_768] {
        let mut s = Scenario::new(format!("topics of {n} levels"));
        s.spin = 100_000;
        let (x, y, z, p) = (s.conn(), s.conn(), s.conn(), s.conn());
        let deepest = format!("{}#", "a/".repeat(199));
        let mut v = script![join(x, "x"), join(y, "y"), join(z, "z"), join(p, "p"), subd(x, 1, &[("#", 0)]), subd(y, 1, &[("a/#", 1), ("+/+", 0)]), subd(z, 1, &[(&deepest, 0), ("$share/g/#", 0), ("/#", 0)])];
        let a = "a/".repeat(n - 1);
        let ts = [format!("{a}a"), a.clone(), "/".repeat(n - 1), format!("{}b", "+/".replace('+', "b").repeat(n - 1)), format!("$share/g/{}", "/".repeat(n - 3)), format!("$SYS{}", "/".repeat(n - 1))];
        let ts: Vec<String> = ts.into_iter().filter(|t| t.len() <= 65_535).collect();
        v.extend(publish_all(p, &ts, "m"));
        s.actor(v);
        out.push(s.std());
    }
    // many subscribers of one filter; many filters of one client
    for n in [2usize, 3, 9, 17, 33, 130, 300] {
        let mut s = Scenario::new(format!("{n} subscribers"));
        let p = s.conn();
        let mut v = join(p, "p");
        for i in 0..n {
            let c = s.conn();
            v.extend(join(c, &format!("r{i}")));
            v.extend(subd(c, 1, &[(["a/b", "a/b", "a/+", "a/b", "#", "a/#", "+/b"][i % 7], (i % 3) as u8)]));
        }
        v.extend(script![send(p, publ("a/b", 2, 1, "one")), Step::Quiet, send(p, pub0("a/b", "two")), Step::Quiet, send(p, pub0("a", "three"))]);
        s.actor(v);
        s.hash_seed = n as u64;
        out.push(s.std());
        // each of them with several filters that match
        let mut s = Scenario::new(format!("{n} subscribers with several filters"));
        let p = s.conn();
        let mut v = join(p, "p");
        for i in 0..n {
            let c = s.conn();
            v.extend(join(c, &format!("r{i}")));
            let fs = ["a/b", "a/+", "#", "a/#", "+/b", "+/+"];
            v.extend(subd(c, 1, &[(fs[i % 6], (i % 3) as u8), (fs[(i / 6 + i + 1) % 6], (i / 3 % 3) as u8), (fs[(i + 3) % 6], 1)]));
        }
        v.extend(script![send(p, publ("a/b", 2, 1, "one")), Step::Quiet, send(p, pub0("a/b", "two")), Step::Quiet, send(p, pub0("a", "three"))]);
        s.actor(v);
        s.hash_seed = n as u64;
        out.push(s.std());
        let mut s = Scenario::new(format!("{n} filters of one client"));
        let (p, r) = (s.conn(), s.conn());
        let fs: Vec<String> = (0..n).map(|i| format!("f/{i}")).collect();
        let many: Vec<(&str, u8)> = fs.iter().map(|f| (f.as_str(), 1)).collect();
        let mut tp = fs.clone();
        tp.push(format!("f/{n}"));
        s.actor(script![join(r, "r"), subd(r, 1, &many), subd(r, 2, &[("f/+", 0), ("f/#", 0)]), join(p, "p"), publish_all(p, &tp, "m"),
            unsubd(r, 3, &["f/+", "f/#"]), publish_all(p, &tp, "n")]);
        out.push(s.std());
    }
    populations(t, out);
    // the publisher is a subscriber, under all schedules
    let mut s = Scenario::new("schedules");
    let (a, b, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(a, "a"), subd(a, 1, &[("x/+", 1), ("x/#", 0)]), send(a, publ("x/y", 1, 7, "a1")), send(a, pub0("y", "a2"))]);
    s.actor(script![join(b, "b"), subd(b, 1, &[("#", 2)])]);
    s.actor(script![join(p, "p"), send(p, pub0("x/y", "p1")), send(p, publ("y", 2, 1, "p2"))]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = if t == Tier::Quick { 2 } else { 16 };
    vary(s.std(), out);
}

/// Populations and histories longer than any counter inside could hide: everyone subscribed gets every message once.
fn populations(t: Tier, out: &mut Vec<Scenario>) {
    let thorough = t == Tier::Thorough;
    // `who` must have got exactly these payloads on the topic
    let count = |want: Vec<(usize, usize)>| -> Oracle {
        std::sync::Arc::new(move |r, bad| {
            let mut wrong = 0;
            let mut first = None;
            for (c, n) in &want {
                let got = r.obs.count(*c, |s| matches!(s, S::Publish { .. }));
                if got != *n {
                    wrong += 1;
                    first.get_or_insert((*c, got, *n));
                }
            }
            if let Some((c, got, n)) = first {
                bad.push(format!("{wrong} of {} clients get a wrong number of messages, such as c{c}: {got} instead of {n}", want.len()));
            }
        })
    };
    for n in if thorough { vec![1100usize, 66_000] } else { vec![1100, 20_000] } {
        let mut s = Scenario::new(format!("{n} subscribers at once"));
        s.max_steps = 50_000_000;
        s.spin = 10_000_000;
        let mut v = vec![];
        let mut want = vec![];
        for i in 0..n {
            let c = s.conn();
            v.push(open(c));
            v.push(sends(c, &[conn(&format!("r{i}")), sub(1, &[("t", 0)])]));
            v.push(await_any(c, 2));
            want.push((c, 2));
        }
        v.push(send(0, publ("t", 1, 1, "all")));
        v.push(Step::Quiet);
        // half of them leave
        for i in (1..n).step_by(2) {
            v.push(send(i, C::Disconnect));
            want[i].1 = 1;
        }
        v.push(Step::Quiet);
        v.push(send(0, pub0("t", "rest")));
        s.actor(v);
        s.oracle = count(want);
        out.push(s);
    }
    for n in if thorough { vec![3000usize, 66_000, 300_000] } else { vec![3000, 66_000] } {
        let mut s = Scenario::new(format!("{n} clients come and go"));
        s.max_steps = 100_000_000;
        s.spin = 10_000_000;
        let (a, p) = (s.conn(), s.conn());
        let mut v = script![join(a, "a"), subd(a, 1, &[("t", 0)]), join(p, "p")];
        for i in 0..n {
            let c = s.conn();
            v.push(open(c));
            v.push(sends(c, &[conn(&format!("r{i}")), sub(1, &[("t", 1)])]));
            v.push(await_any(c, 2));
            v.push(send(c, C::Disconnect));
            v.push(await_closed(c));
        }
        let b = s.conn();
        v.extend(script![join(b, "b"), subd(b, 1, &[("t", 1)]), send(p, publ("t", 1, 1, "x")), Step::Quiet, send(p, pub0("t", "y"))]);
        s.actor(v);
        s.oracle = count(vec![(a, 2), (b, 2)]);
        out.push(s);
    }
    // one client's many requests and messages
    for n in if thorough { vec![70_000usize, 300_000] } else { vec![3000, 70_000] } {
        let mut s = Scenario::new(format!("{n} requests of one client"));
        s.max_steps = 100_000_000;
        s.spin = 10_000_000;
        let (a, p) = (s.conn(), s.conn());
        let mut v = script![join(a, "a"), subd(a, 1, &[("t", 0)]), join(p, "p")];
        for i in 0..n {
            let f = format!("f/{}", i % 7);
            let k = (i % 65_535) as u16 + 1;
            v.push(sends(p, &[sub(k, &[(&f, 0)]), publ("t", 1, k, "x"), unsub(k, &[&f])]));
            if i % 20 == 0 {
                v.push(Step::Quiet);
            }
        }
        v.push(Step::Quiet);
        v.push(sends(p, &[pub0("f/0", "no"), pub0("f/6", "no")]));
        s.actor(v);
        s.oracle = count(vec![(a, n), (p, 0)]);
        out.push(s);
    }
}

/// `c` subscribes (as a branch option), fully acknowledged, then everything settles.
fn op_sub(c: usize, pid: u16, f: &str, q: u8) -> Vec<Step> {
    script![send(c, sub(pid, &[(f, q)])), Step::Quiet]
}
fn op_unsub(c: usize, pid: u16, f: &str) -> Vec<Step> {
    script![send(c, unsub(pid, &[f])), Step::Quiet]
}

pub fn c02(t: Tier, out: &mut Vec<Scenario>) {
    let probes: Vec<String> = ["a", "a/b", "a/b/c", "b", "a/c", "/", "c/b"].map(String::from).to_vec();
    let probe = |p: usize, tag: &str| {
        let ps: Vec<C> = probes.iter().enumerate().map(|(i, t)| publ(t, 2, i as u16 + 1, &format!("{tag}{i}"))).collect();
        let rel: Vec<C> = (0..probes.len()).map(|i| C::PubRel(i as u16 + 1)).collect();
        script![sends(p, &ps), Step::Quiet, sends(p, &rel), Step::Quiet]
    };
    // one client, all filters
    let fs = ["a", "a/b", "a/+", "a/#", "+/b", "#"];
    let mut s = Scenario::new("one client");
    let (r, p) = (s.conn(), s.conn());
    let n = if t == Tier::Quick { 3 } else { 4 };
    let mut v = script![join(r, "r"), join(p, "p")];
    for k in 0..n {
        let mut opts = vec![];
        for f in fs {
            opts.push(op_sub(r, k + 1, f, 0));
            opts.push(op_sub(r, k + 1, f, 2));
            opts.push(op_unsub(r, k + 1, f));
        }
        v.push(branch(opts));
        if k + 1 < n {
            v.push(branch(vec![vec![]]));
        }
    }
    v.extend(probe(p, "x"));
    s.actor(v);
    s.parts = 16;
    out.push(s.std());
    // two clients with probes in between
    for (nm, fs) in [("nested", ["a", "a/b", "a/b/c"]), ("wild", ["a/+", "a/#", "#"]), ("mixed", ["a/b", "a/+", "+/+"])] {
        let mut s = Scenario::new(format!("two clients {nm}"));
        let (x, y, p) = (s.conn(), s.conn(), s.conn());
        let n = if t == Tier::Quick { 3 } else { 5 };
        let mut v = script![join(x, "x"), join(y, "y"), join(p, "p")];
        for k in 0..n {
            let mut opts = vec![];
            for c in [x, y] {
                for (i, f) in fs.iter().enumerate() {
                    opts.push(op_sub(c, k + 1, f, (i as u8 + k as u8) % 3));
                    opts.push(op_unsub(c, k + 1, f));
                }
            }
            v.push(branch(opts));
            v.extend(probe(p, &format!("{k}.")));
        }
        s.actor(v);
        s.parts = 16;
        out.push(s.std());
    }
    // several filters in one packet
    let mut s = Scenario::new("packets with several filters");
    let (r, p) = (s.conn(), s.conn());
    let mut v = script![join(r, "r"), join(p, "p")];
    let n = if t == Tier::Quick { 2 } else { 3 };
    for k in 0..n {
        let mut opts = vec![];
        for f in ["a", "a/b", "#"] {
            for g in ["a", "a/b", "a/+"] {
                opts.push(script![send(r, sub(k + 1, &[(f, 0), (g, 2)])), Step::Quiet]);
                opts.push(script![send(r, unsub(k + 1, &[f, g])), Step::Quiet]);
            }
        }
        opts.push(script![send(r, sub(k + 1, &[("a", 1), ("a/b", 1), ("#", 0), ("a", 0)])), Step::Quiet]);
        opts.push(script![send(r, unsub(k + 1, &["b", "a/b/c", "#"])), Step::Quiet]);
        v.push(branch(opts));
    }
    v.extend(probe(p, "x"));
    s.actor(v);
    s.parts = 8;
    out.push(s.std());
    // many: subscribe to all of n filters, remove every k-th
    for n in [10usize, 100, 300, 1100, 4200] {
        for k in [2usize, 3] {
            if n > 1000 && t == Tier::Quick && k == 2 {
                continue;
            }
            let mut s = Scenario::new(format!("{n} filters, every {k}th removed"));
            s.spin = 100_000;
            s.max_steps = 5_000_000;
            let (r, q, p) = (s.conn(), s.conn(), s.conn());
            let name = |i: usize| match i % 3 {
                0 => format!("m/{i}"),
                1 => format!("m/{}/x", i / 3),
                _ => format!("{i}"),
            };
            let all: Vec<String> = (0..n).map(name).collect();
            let av: Vec<(&str, u8)> = all.iter().map(|f| (f.as_str(), 1)).collect();
            let rm: Vec<&str> = all.iter().step_by(k).map(|f| f.as_str()).collect();
            s.actor(script![
                join(r, "r"),
                join(q, "q"),
                join(p, "p"),
                subd(r, 1, &av),
                subd(q, 1, &av),
                unsubd(r, 2, &rm),
                publish_all(p, &all, "m"),
                subd(r, 3, &av[..n / 2]),
                unsubd(q, 2, &all.iter().map(|f| f.as_str()).collect::<Vec<_>>()),
                publish_all(p, &all, "n")
            ]);
            out.push(s.std());
        }
    }
    // concurrent requests of two clients on overlapping filters
    let mut s = Scenario::new("schedules");
    let (x, y, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(x, "x"), subd(x, 1, &[("a", 1)]), unsubd(x, 2, &["a"]), subd(x, 3, &[("a/b", 0)])]);
    s.actor(script![join(y, "y"), subd(y, 1, &[("a/b", 0), ("a", 2)]), unsubd(y, 2, &["a/b"])]);
    let mut v = script![after_actors(2), Step::Quiet, join(p, "p")];
    v.extend(probe(p, "x"));
    s.actor(v);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = if t == Tier::Quick { 2 } else { 16 };
    vary(s.std(), out);
}

pub fn c19(t: Tier, out: &mut Vec<Scenario>) {
    // all strings over {a, /, +, #} up to a length, as filters and as topics
    let max = if t == Tier::Quick { 6 } else { 8 };
    let mut strings = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for c in &cur {
            for l in ["a", "/", "+", "#"] {
                next.push(format!("{c}{l}"));
            }
        }
        strings.extend(next.iter().cloned());
        cur = next;
    }
    // the same in a group, below other levels, and next to letters of more than one byte
    let short: Vec<String> = strings.iter().filter(|x| x.len() < max).cloned().collect();
    for before in ["$share/g/", "$share/", "b/b/b/b/", "$SYS/"] {
        strings.extend(short.iter().filter(|x| x.len() + 2 < max || before == "$share/g/").map(|x| format!("{before}{x}")));
    }
    strings.extend(short.iter().filter(|x| x.len() + 1 < max && x.contains('a')).map(|x| x.replace('a', "é日")));
    strings.extend(
        ["$share/#/a", "$share/+/a", "$share/#", "$share/+", "$share/g+/a", "$share/#g/a", "$share/g/", "$share/g/a#", "$share/g/#/a", "$share/g/a+", "$share/g/+a/b", "$share/g/a", "$share/g/#", "$share/g/+", "$SYS/#/x", "$SYS/+", "a/b/c/d/e/#/f", "a/b/c/d/e/#", "é+", "+é", "日/#本"]
            .map(String::from),
    );
    let ts: Vec<String> = strings.iter().filter(|x| valid_topic(x) && x.len() <= 4).cloned().chain(["$SYS/a".into(), "$share/g/a".into()]).collect();
    for ch in strings.chunks(if t == Tier::Quick { 4 } else { 6 }) {
        let mut s = Scenario::new(format!("filters {:?}", ch));
        let (r, o, p) = (s.conn(), s.conn(), s.conn());
        let mut v = script![join(r, "r"), join(o, "o"), join(p, "p")];
        // all in one SUBSCRIBE, a valid one first and last
        let mut fs: Vec<(&str, u8)> = vec![("first", 1)];
        fs.extend(ch.iter().map(|f| (f.as_str(), 2)));
        fs.push(("last/#", 0));
        v.extend(subd(r, 1, &fs));
        // and one by one
        for (i, f) in ch.iter().enumerate() {
            v.extend(subd(o, i as u16 + 1, &[(f, 1)]));
        }
        v.extend(publish_all(p, &ts, "m"));
        v.extend(publish_all(p, &["first".into(), "last".into(), "last/x".into()], "n"));
        // unsubscribing from whatever it is is acknowledged
        v.extend(unsubd(o, 99, &ch.iter().map(|f| f.as_str()).collect::<Vec<_>>()));
        v.extend(publish_all(p, &ts, "o"));
        s.actor(v);
        out.push(s.std());
    }
    // invalid topics in PUBLISH, at each QoS; packets before take effect, packets after do not
    let bad: Vec<String> = strings.iter().filter(|x| !valid_topic(x) && x.len() <= if t == Tier::Quick { 3 } else { 4 }).cloned()
        .chain(["$SYS/#", "$share/g/+", "$share/+/a", "a/b+c", "x#", "é/+"].map(String::from)).collect();
    let mut s = Scenario::new("topics");
    let (r, p) = (s.conn(), s.conn());
    let mut opts = vec![];
    for b in &bad {
        for q in 0..3 {
            opts.push(script![sends(p, &[pub0("ok", "before"), publ(b, q, 3, "bad"), pub0("ok", "after"), C::Ping])]);
        }
    }
    s.actor(script![
        join(r, "r"),
        subd(r, 1, &[("#", 2), ("+", 1), ("+/+", 1), ("ok", 0), ("a/+", 0), ("a/#", 0), ("$share/g/#", 0), ("$SYS/#", 0)]),
        join(p, "p"),
        branch(opts),
        Step::Quiet
    ]);
    s.probe();
    s.parts = 8;
    out.push(s.std());
    // filters of many levels
    let depths: Vec<usize> = if t == Tier::Quick {
        (1..=10).chain([15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 198, 199, 200]).collect()
    } else {
        (1..=200).collect()
    };
    for n in depths {
        let mut fs: Vec<String> = vec![vec!["a"; n].join("/"), vec!["+"; n].join("/"), vec![""; n].join("/"), vec!["é日"; n].join("/")];
        fs.push(format!("{}/#", vec!["a"; n - 1].join("/")));
        fs.push([vec!["+"; n - 1], vec!["#"]].concat().join("/"));
        fs.push((0..n).map(|i| if i % 2 == 0 { "a" } else { "+" }).collect::<Vec<_>>().join("/"));
        fs.push((0..n).map(|i| format!("level{i}")).collect::<Vec<_>>().join("/"));
        if n > 2 {
            fs.push(format!("$share/g/{}", vec!["a"; n - 2].join("/")));
        }
        // and not valid
        fs.push(format!("{}/#/a", vec!["a"; n].join("/")));
        fs.push(format!("{}/b+", vec!["a"; n].join("/")));
        fs.push(format!("+b/{}", vec!["a"; n].join("/")));
        fs.retain(|f| !f.is_empty());
        let mut s = Scenario::new(format!("filters of {n} levels"));
        let (r, o, p) = (s.conn(), s.conn(), s.conn());
        let mut v = script![join(r, "r"), join(o, "o"), join(p, "p")];
        v.extend(subd(r, 1, &fs.iter().map(|f| (f.as_str(), 1)).collect::<Vec<_>>()));
        for (i, f) in fs.iter().enumerate() {
            v.extend(subd(o, i as u16 + 1, &[(f, 2)]));
        }
        let ts: Vec<String> = fs.iter().filter(|f| !f.contains(['+', '#'])).cloned().chain([vec!["a"; n + 1].join("/")]).collect();
        v.extend(publish_all(p, &ts, "m"));
        v.extend(unsubd(o, 99, &fs.iter().map(|f| f.as_str()).collect::<Vec<_>>()));
        v.extend(publish_all(p, &ts, "o"));
        s.actor(v);
        out.push(s.std());
    }
    // filters of any length, of few levels and of many
    for n in [1usize, 2, 22, 23, 24, 30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10_000, 16_384, 20_000, 32_767, 32_768, 40_000, 50_000, 60_001, 65_000, 65_534, 65_535] {
        let fill = |k: usize| "l".repeat(k);
        let mut fs: Vec<String> = vec![fill(n)];
        if n >= 24 {
            fs.push(format!("{}/+", fill(n - 2)));
            fs.push(format!("+/{}", fill(n - 2)));
            fs.push(format!("{}/#", fill(n - 2)));
            fs.push(format!("$share/g/{}", fill(n - 9)));
            fs.push(format!("$share/{}/t", fill(n - 9)));
            fs.push(format!("{}/{}", fill(n / 2), fill(n - 1 - n / 2)));
            let each = (n / 100).max(1);
            fs.push(vec![fill(each); n.min(100) / 2].join("/"));
            fs.push(format!("{}+", fill(n - 1)));
            fs.push(format!("#/{}", fill(n - 2)));
        }
        let mut s = Scenario::new(format!("filters of {n} bytes"));
        s.spin = 100_000;
        let (r, p) = (s.conn(), s.conn());
        let mut v = script![join(r, "r"), join(p, "p")];
        for (i, f) in fs.iter().enumerate() {
            v.extend(subd(r, i as u16 + 1, &[(f, (i % 3) as u8)]));
        }
        let ts: Vec<String> = fs.iter().filter(|f| !f.contains(['+', '#'])).cloned().chain(["t".into(), fill(n - 1)]).filter(|t| !t.is_empty()).collect();
        v.extend(publish_all(p, &ts, "m"));
        for (i, f) in fs.iter().enumerate() {
            if i % 2 == 0 {
                v.extend(unsubd(r, 90, &[f]));
            }
        }
        v.extend(publish_all(p, &ts, "o"));
        s.actor(v);
        out.push(s.std());
    }
    // an invalid filter does not disturb subscriptions held already
    let mut s = Scenario::new("held subscriptions stay");
    let (r, p) = (s.conn(), s.conn());
    let mut opts = vec![];
    for f in ["", "a/#/b", "#/", "+a", "a+", "##", "a#", "a/b#", "/#/"] {
        opts.push(script![subd(r, 2, &[(f, 0)])]);
        opts.push(script![subd(r, 2, &[("a/b", 0), (f, 0), ("a/#", 2)])]);
        opts.push(script![unsubd(r, 2, &[f])]);
    }
    s.actor(script![
        join(r, "r"),
        subd(r, 1, &[("a/#", 1), ("a/b", 2)]),
        join(p, "p"),
        branch(opts),
        publish_all(p, &["a".into(), "a/b".into(), "a/b/c".into(), "b".into()], "m")
    ]);
    s.parts = 2;
    out.push(s.std());
}

pub fn c20(t: Tier, out: &mut Vec<Scenario>) {
    let places = ["$share/g/", "$share/h/", "$share//", "$shared/g/", ""];
    let fs = ["a", "a/b", "+", "#", "a/#", "+/b", "/a"];
    let ts = ["a", "a/b", "b", "/a", "a/b/c"];
    let mut topics: Vec<String> = vec![];
    for p in places {
        for t in ts {
            topics.push(format!("{p}{t}"));
        }
    }
    topics.push("share/g/a".into());
    topics.push("$share2/g/a".into());
    topics.push("/g/a".into());
    topics.push("$share/gg/a".into());
    // every filter in every place
    for p in places {
        for f in fs {
            let full = format!("{p}{f}");
            let mut s = Scenario::new(format!("one filter {full}"));
            let (r, q) = (s.conn(), s.conn());
            s.actor(script![join(r, "r"), subd(r, 1, &[(&full, 1)]), join(q, "q"), publish_all(q, &topics, "m"),
                unsubd(r, 2, &[&full]), publish_all(q, &topics, "n")]);
            out.push(s.std());
        }
    }
    // two places at once: three clients, then removal of one
    for f in fs {
        for (i, p) in places.iter().enumerate() {
            for (j, q) in places.iter().enumerate() {
                if i == j {
                    continue;
                }
                let (a, b) = (format!("{p}{f}"), format!("{q}{f}"));
                let mut s = Scenario::new(format!("{a} and {b}"));
                s.hash_seed = (i * 5 + j) as u64;
                let (x, y, z, w) = (s.conn(), s.conn(), s.conn(), s.conn());
                s.actor(script![
                    join(x, "x"),
                    join(y, "y"),
                    join(z, "z"),
                    join(w, "w"),
                    subd(x, 1, &[(&a, 0)]),
                    subd(y, 1, &[(&b, 0)]),
                    subd(z, 1, &[(&a, 0), (&b, 2)]),
                    publish_all(w, &topics, "m"),
                    unsubd(z, 2, &[&a]),
                    unsubd(x, 2, &[&b]),
                    publish_all(w, &topics, "n"),
                    unsubd(y, 3, &[&b]),
                    unsubd(x, 3, &[&a]),
                    publish_all(w, &topics, "o"),
                ]);
                out.push(s.std());
            }
        }
    }
    // long filters, in groups whose names differ in little
    let names = ["g", "G", "gg", "g ", "é", "É", "+", "#", "$share", "g.1", "0"];
    let deep = ["a/b/c/d/e/f", "a/b/c/d/e/#", "a/+/c/+/e/+", "A/b/C/d", "a/b/c/d", "a//b//", "/a/b/c/d/e/f/g/h"];
    let mut topics: Vec<String> = vec![];
    for n in names.iter().filter(|n| !n.contains(['+', '#'])) {
        for f in ["a/b/c/d/e/f", "A/b/C/d", "a/b/C/d", "a/b/c/d", "a//b//", "/a/b/c/d/e/f/g/h"] {
            topics.push(format!("$share/{n}/{f}"));
        }
    }
    topics.push("a/b/c/d/e/f".into());
    topics.push("g/a/b/c/d".into());
    for f in deep {
        for n in names {
            let a = format!("$share/{n}/{f}");
            let mut s = Scenario::new(format!("long {a}"));
            let (x, y, w) = (s.conn(), s.conn(), s.conn());
            let all: Vec<String> = names.iter().map(|n| format!("$share/{n}/{f}")).collect();
            let mut v = script![join(x, "x"), join(y, "y"), join(w, "w"), subd(x, 1, &[(&a, 1)])];
            for (i, g) in all.iter().enumerate() {
                if *g != a {
                    v.extend(subd(y, i as u16 + 1, &[(g, 0)]));
                }
            }
            v.extend(publish_all(w, &topics, "m"));
            v.extend(unsubd(x, 2, &[&a]));
            v.extend(publish_all(w, &topics, "n"));
            v.extend(subd(x, 3, &[(&a, 2)]));
            for (i, g) in all.iter().enumerate() {
                if *g != a {
                    v.extend(unsubd(y, i as u16 + 1, &[g]));
                }
            }
            v.extend(publish_all(w, &topics, "o"));
            s.actor(v);
            out.push(s.std());
        }
    }
    // names of groups that agree up to some place; first levels that are not '$share'
    for n in [1usize, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 1_000, 4_096, 20_000] {
        let b = "n".repeat(n);
        let g = [format!("{b}x"), format!("{b}y"), b.clone(), format!("x{b}"), format!("{b}xx"), format!("{b}X"), b[1..].to_string()];
        let mut s = Scenario::new(format!("groups that agree in {n}"));
        s.spin = 100_000;
        let w = s.conn();
        let ts: Vec<String> = g.iter().filter(|g| !g.is_empty()).map(|g| format!("$share/{g}/a")).collect();
        let mut v = join(w, "w");
        let mut cs = vec![];
        // alone first, then next to the others
        for (i, t) in ts.iter().enumerate() {
            let c = s.conn();
            v.extend(join(c, &format!("c{i}")));
            v.extend(subd(c, 1, &[(t, (i % 3) as u8)]));
            v.extend(publish_all(w, &ts, &format!("a{i}.")));
            if i == 0 {
                v.extend(unsubd(c, 2, &[&ts[1]]));
            }
            cs.push(c);
        }
        for (i, t) in ts.iter().enumerate() {
            v.extend(unsubd(cs[i], 3, &[t]));
            v.extend(publish_all(w, &ts, &format!("b{i}.")));
        }
        s.actor(v);
        out.push(s.std());
    }
    for l in ["$SHARE", "$Share", "$sharE", "$share ", " $share", "$shar", "$shared", "$share2", "share", "$$share", "$share$", "$", "$SYS", "$queue", "$oshare", "$exclusive", "$local", "$share\u{200b}", "\u{feff}$share", "＄share"] {
        for other in [format!("{l}/g/a"), format!("{l}/g/+"), format!("{l}/#"), format!("{l}/+/a"), format!("{l}/g/a/#"), l.to_string()] {
            let mut s = Scenario::new(format!("not a group: {other:?}"));
            let (x, y, w) = (s.conn(), s.conn(), s.conn());
            let ts: Vec<String> = ["$share/g/a", "$share/g", "$share/g/g/a", "a", "g/a", "$share/g/a/b", "$share/h/a", "$share/x"].iter().map(|s| s.to_string()).chain(["/g/a", "/g", "", "/h/a", "/g/a/b", "/a"].iter().map(|e| format!("{l}{e}"))).collect();
            s.actor(script![
                join(x, "x"),
                subd(x, 1, &[(&other, 1)]),
                join(w, "w"),
                publish_all(w, &ts, "m"),
                join(y, "y"),
                subd(y, 1, &[("$share/g/a", 1), ("$share/g/+", 0)]),
                publish_all(w, &ts, "n"),
                unsubd(x, 2, &[&other]),
                publish_all(w, &ts, "o"),
                unsubd(y, 2, &["$share/g/a"]),
                subd(x, 3, &[(&other, 2)]),
                publish_all(w, &ts, "p"),
            ]);
            out.push(s.std());
        }
    }
    // histories
    for (nm, set) in [
        ("flat", ["$share/g/a", "$share/h/a", "a"]),
        ("nested", ["$share/g/a", "$share/g/a/b", "$share/h/a/b"]),
        ("wild", ["$share/g/+", "$share/g/#", "#"]),
    ] {
        let mut s = Scenario::new(format!("histories {nm}"));
        let (x, y, p) = (s.conn(), s.conn(), s.conn());
        let n = if t == Tier::Quick { 3 } else { 4 };
        let mut v = script![join(x, "x"), join(y, "y"), join(p, "p")];
        let tp: Vec<String> = ["$share/g/a", "$share/h/a", "a", "$share/g/a/b", "$share/h/a/b", "a/b"].map(String::from).to_vec();
        for k in 0..n {
            let mut opts = vec![];
            for c in [x, y] {
                for f in set {
                    opts.push(op_sub(c, k + 1, f, k as u8 % 3));
                    opts.push(op_sub(c, k + 1, f, 2 - k as u8 % 3));
                    opts.push(op_unsub(c, k + 1, f));
                }
            }
            v.push(branch(opts));
            // at QoS 2: the delivery shows the QoS of the subscription
            let ps: Vec<C> = tp.iter().enumerate().map(|(i, t)| publ(t, 2, 100 * k + i as u16 + 1, &format!("{k}.{i}"))).collect();
            v.extend(script![sends(p, &ps), Step::Quiet]);
        }
        s.actor(v);
        s.parts = 16;
        out.push(s.std());
    }
    // histories of a session that persists, or not
    for (nm, set) in [("flat", ["$share/g/a", "$share/h/a", "a"]), ("wild", ["$share/g/+", "$share/g/#", "$share/h/a/#"])] {
        let mut s = Scenario::new(format!("sessions {nm}"));
        let (y, p) = (s.conn(), s.conn());
        let n = if t == Tier::Quick { 2 } else { 3 };
        let mut v = script![join(y, "y"), subd(y, 1, &[(set[0], 1), (set[2], 2)]), join(p, "p")];
        let tp: Vec<String> = ["$share/g/a", "$share/h/a", "a", "$share/g/a/b", "$share/h/a/b", "a/b"].map(String::from).to_vec();
        let mut x = s.conn();
        v.extend(pjoin(x, "x"));
        for k in 0..=n {
            let mut opts = vec![vec![]];
            for (i, f) in set.iter().enumerate() {
                opts.push(op_sub(x, k + 1, f, (k as u8 + i as u8) % 3));
                opts.push(op_sub(x, k + 1, f, (k as u8 + i as u8 + 2) % 3));
                opts.push(op_unsub(x, k + 1, f));
            }
            opts.push(script![send(x, sub(k + 1, &[(set[0], 2), (set[1], 1), (set[2], 0)])), Step::Quiet]);
            v.push(branch(opts));
            if k == n {
                v.extend(script![sends(p, &tp.iter().enumerate().map(|(i, t)| publ(t, 2, 900 + i as u16, &format!("end{i}"))).collect::<Vec<_>>()), Step::Quiet]);
                break;
            }
            let z = s.conn();
            v.push(branch(vec![
                script![pjoin(z, "x")],
                script![send(x, C::Disconnect), Step::Quiet, pjoin(z, "x")],
                script![eof(x), join(z, "x"), Step::Quiet],
                script![reset(x), sends(p, &[publ(&tp[0], 1, 800 + k, "lost"), publ(&tp[2], 1, 850 + k, "lost too")]), Step::Quiet, pjoin(z, "x")],
            ]));
            x = z;
            let ps: Vec<C> = tp.iter().enumerate().map(|(i, t)| publ(t, 2, 100 * k + i as u16 + 1, &format!("{k}.{i}"))).collect();
            v.extend(script![sends(p, &ps), Step::Quiet]);
        }
        s.actor(v);
        s.parts = 16;
        out.push(s.std());
    }
    // sessions and groups: a new clean session has none of the old group subscriptions
    for end in 0..3 {
        let mut s = Scenario::new(format!("ended sessions {end}"));
        let (x, y, z, p) = (s.conn(), s.conn(), s.conn(), s.conn());
        let tp: Vec<String> = ["$share/g/a", "$share/h/a", "a"].map(String::from).to_vec();
        s.actor(script![
            join(x, "x"),
            join(z, "z"),
            subd(x, 1, &[("$share/g/a", 0), ("$share/h/#", 1)]),
            subd(z, 1, &[("$share/g/a", 0)]),
            match end { 0 => send(x, C::Disconnect), 1 => eof(x), _ => reset(x) },
            Step::Quiet,
            join(y, "x"),
            join(p, "p"),
            publish_all(p, &tp, "m"),
            subd(y, 1, &[("$share/g/a", 0)]),
            publish_all(p, &tp, "n"),
            unsubd(y, 2, &["$share/g/a"]),
            publish_all(p, &tp, "o"),
        ]);
        out.push(s.std());
    }
    let mut s = Scenario::new("schedules");
    let (x, y, p) = (s.conn(), s.conn(), s.conn());
    s.actor(script![join(x, "x"), subd(x, 1, &[("$share/g/a", 1), ("a", 0)]), unsubd(x, 2, &["a"])]);
    s.actor(script![join(y, "y"), subd(y, 1, &[("$share/h/a", 1), ("$share/g/+", 0)]), unsubd(y, 2, &["$share/g/+"])]);
    s.actor(script![join(p, "p"), sends(p, &[pub0("$share/g/a", "p1"), pub0("a", "p2"), pub0("$share/h/a", "p3")]), send(p, pub0("$share/g/a", "p4"))]);
    s.budget = if t == Tier::Quick { 1 } else { 2 };
    s.parts = if t == Tier::Quick { 2 } else { 16 };
    vary(s.std(), out);
}
