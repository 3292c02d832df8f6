mod codec;
mod engine;
mod fams;
mod heap;
mod monitor;
mod real;
mod scen;
mod statics;

use engine::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

const HANG: u64 = 60;
/// The exploration begins no further part after this many seconds (a check gets 900 s); it says so.
const LIMIT: u64 = 700;
/// Stands for the exploration of the statistics module by itself.
const ATOMS: &str = "concurrent updates of the counters";

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2], tier(&args[3]))),
        #[cfg(feature = "atoms")]
        Some("atoms") => atom::part(args[2] == "thorough", args[3].parse().unwrap()),
        Some("worker") => worker(&args[2], tier(&args[3]), &args[4]),
        Some("replay") => std::process::exit(replay(&args[2])),
        Some("list") => {
            for (i, s) in fams::scenarios(&args[2], tier(&args[3])).iter().enumerate() {
                println!("{i} {} budget={} parts={}", s.name, s.budget, s.parts);
            }
        }
        Some("statics") => println!("{} static variables of the broker", statics::init()),
        // real <binary> <id> <tier> <executions per scenario>
        Some("real") => {
            install_panic_hook();
            std::process::exit(real::main(&args[2], fams::scenarios(&args[3], tier(&args[4])), args[5].parse().unwrap()))
        }
        Some("show") => {
            install_panic_hook();
            let v = fams::scenarios(&args[2], tier(&args[3]));
            let sc = Arc::new(
                v.iter().find(|s| s.name == args[4] || Some(&s.name) == v.get(args[4].parse().unwrap_or(usize::MAX)).map(|s| &s.name)).expect("no such scenario").clone(),
            );
            let (run, _) = execute(&sc, &[]);
            print!("{}", run.render());
            println!("{} steps, {} decisions", run.steps, run.trace.len());
            for m in judge(&sc, &run) {
                println!("! {m}");
            }
        }
        _ => {
            eprintln!("usage: mc check|list <id> <tier> | replay <file> | show <id> <tier> <scenario>");
            std::process::exit(2);
        }
    }
}

// ----- worker -----------------------------------------------------------------------------------

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn worker(id: &str, tier: Tier, journal: &str) {
    install_panic_hook();
    let scs: Vec<Arc<Scenario>> = fams::scenarios(id, tier).into_iter().map(Arc::new).collect();
    let j = std::fs::OpenOptions::new().write(true).create(true).open(journal).expect("journal");
    // the number of steps so far, at the start of the journal: the parent sees whether this process hangs
    {
        let j = j.try_clone().unwrap();
        std::thread::spawn(move || loop {
            let n = engine::STEPS.load(std::sync::atomic::Ordering::Relaxed);
            let _ = j.write_at(&n.to_le_bytes(), 0);
            std::thread::sleep(Duration::from_millis(100));
        });
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let mut t = Tally::default();
        let mut bads: Vec<String> = vec![];
        for job in line.split_whitespace() {
            let (i, p) = job.split_once('.').unwrap();
            let (i, p): (usize, usize) = (i.parse().unwrap(), p.parse().unwrap());
            let sc = &scs[i];
            let mut jr = |prefix: &[u16]| {
                let mut b = Vec::with_capacity(32 + prefix.len() * 2);
                b.extend_from_slice(&(i as u64).to_le_bytes());
                b.extend_from_slice(&(prefix.len() as u64).to_le_bytes());
                for x in prefix {
                    b.extend_from_slice(&x.to_le_bytes());
                }
                let _ = j.write_at(&b, 8);
            };
            explore(sc, p, sc.parts, &mut jr, &mut t);
            for (prefix, msgs) in t.bad.drain(..) {
                let pf: Vec<String> = prefix.iter().map(|x| x.to_string()).collect();
                let ms: Vec<String> = msgs.iter().map(|m| esc(m)).collect();
                bads.push(format!("{i} {}\t{}", pf.join(","), ms.join("\t")));
            }
        }
        let mut w = std::io::BufWriter::new(&mut out);
        let sample = t.sample.take().map(|s| esc(&s)).unwrap_or_default();
        writeln!(
            w,
            "{} {} {} {} {} {} {}",
            t.execs,
            t.steps,
            t.choices,
            t.truncated as u8,
            t.states.len(),
            bads.len(),
            sample
        )
        .unwrap();
        let mut b = Vec::with_capacity(t.states.len() * 8);
        for s in &t.states {
            b.extend_from_slice(&s.to_le_bytes());
        }
        w.write_all(&b).unwrap();
        for b in bads {
            writeln!(w, "{b}").unwrap();
        }
        w.flush().unwrap();
    }
}

// ----- parent -----------------------------------------------------------------------------------

struct Total {
    execs: u64,
    steps: u64,
    choices: u64,
    states: U64Set,
    truncated: bool,
    /// jobs not begun within LIMIT
    left: usize,
    bad: Vec<(usize, Vec<u16>, Vec<String>)>,
    samples: Vec<String>,
    errors: Vec<String>,
}

struct Known {
    property: String,
    scenario: String,
    text: String,
}
fn known(id: &str) -> Vec<Known> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let s = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: ")?;
            let (p, r) = r.strip_prefix("property=")?.split_once(" scenario=")?;
            let (sc, t) = r.split_once(" text=")?;
            (p == id).then(|| Known { property: p.into(), scenario: sc.into(), text: t.into() })
        })
        .collect()
}

/// (The broker sees a fixed number.)
fn processors() -> usize {
    let s = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    s.lines().filter(|l| l.starts_with("processor")).count().max(4)
}

fn check(id: &str, tier: Tier) -> i32 {
    let start = Instant::now();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let scs = fams::scenarios(id, tier);
    {
        let mut names = std::collections::HashSet::new();
        for s in &scs {
            assert!(names.insert(&s.name), "duplicate scenario name {}", s.name);
        }
    }
    // jobs: big scenarios alone and split, small ones in batches
    let mut jobs: Vec<String> = vec![];
    let mut batch: Vec<String> = vec![];
    for (i, s) in scs.iter().enumerate() {
        if s.parts > 1 {
            for p in 0..s.parts {
                jobs.push(format!("{i}.{p}"));
            }
        } else {
            batch.push(format!("{i}.0"));
            if batch.len() >= (scs.len() / 64).clamp(1, 40) {
                jobs.push(batch.join(" "));
                batch.clear();
            }
        }
    }
    if !batch.is_empty() {
        jobs.push(batch.join(" "));
    }
    jobs.reverse();
    let njobs = jobs.len();
    let jobs = Arc::new(Mutex::new(jobs));
    let total = Arc::new(Mutex::new(Total {
        execs: 0,
        steps: 0,
        choices: 0,
        states: U64Set::default(),
        truncated: false,
        left: 0,
        bad: vec![],
        samples: vec![],
        errors: vec![],
    }));
    let nw = processors().clamp(1, 8).min(njobs.max(1));
    let mut hs = vec![];
    for w in 0..nw {
        let (jobs, total) = (jobs.clone(), total.clone());
        let id = id.to_string();
        hs.push(std::thread::spawn(move || run_worker(w, &id, tier, jobs, total)));
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut total = Arc::try_unwrap(total).ok().unwrap().into_inner().unwrap();
    #[cfg(feature = "atoms")]
    let atoms = (id == "C18").then(|| atom::explore(tier == Tier::Thorough));
    let kn = known(id);
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let mut viols = vec![];
    total.bad.sort_by_key(|b| (b.1.iter().filter(|x| **x != 0).count(), b.0, b.1.len(), b.1.clone()));
    let mut harness = vec![];
    for (i, prefix, msgs) in &total.bad {
        let name = &scs[*i].name;
        let mut rest = vec![];
        for m in msgs {
            if m.starts_with("HARNESS") {
                harness.push(format!("{name}: {m} choices {prefix:?}"));
                continue;
            }
            match kn.iter().find(|k| name.contains(&k.scenario) && m.contains(&k.text)) {
                Some(k) => {
                    known_hit.entry(k.text.clone()).or_insert_with(|| {
                        format!("KNOWN-FINDING: property={} {} ({})", k.property, m, name)
                    });
                }
                None => rest.push(m.clone()),
            }
        }
        if !rest.is_empty() {
            viols.push((*i, prefix.clone(), rest));
        }
    }
    for l in known_hit.values() {
        println!("{l}");
    }
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut code = 0;
    if let Some((i, prefix, msgs)) = viols.first() {
        let path = format!("{dir}/evidence/replay-{id}-{tname}.txt");
        let used = prefix.iter().rposition(|x| *x != 0).map_or(0, |k| k + 1);
        let pf: Vec<String> = prefix[..used].iter().map(|x| x.to_string()).collect();
        let mut text = format!(
            "property {id}\ntier {tname}\nscenario {}\nchoices {}\n\n",
            scs[*i].name,
            pf.join(",")
        );
        for m in msgs {
            text += &format!("! {m}\n");
            println!("  {m}");
        }
        println!("  in scenario {} ({} of {} executions)", scs[*i].name, viols.len(), total.execs);
        let mut by: BTreeMap<String, usize> = BTreeMap::new();
        for (i, _, m) in &viols {
            *by.entry(format!("{}: {}", scs[*i].name, m[0])).or_default() += 1;
        }
        text += "\nall violations of this run (by scenario and first message):\n";
        for (k, n) in by.iter().take(400) {
            text += &format!("{n:>6} {k}\n");
        }
        if !msgs[0].starts_with("the broker process") {
            install_panic_hook();
            let sc = Arc::new(scs[*i].clone());
            let (run, _) = execute(&sc, prefix);
            text += &format!("\n{}", run.render());
        }
        text += &format!("\nTo run it again: bash /verif/run.sh replay {path}\n");
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        let _ = std::fs::write(&path, text);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    #[allow(unused_mut)]
    let mut nviols = viols.len();
    let mut notes: Vec<String> = vec![];
    #[cfg(feature = "atoms")]
    if let Some(a) = &atoms {
        notes.push(format!(
            "updates of the counters by 2 and 3 threads at once: {} programs, {} schedules, {} decisions{}{}",
            a.programs,
            a.schedules,
            a.switches,
            a.bound.map(|b| format!("; complete up to {b} preemptions")).unwrap_or_default(),
            a.void.as_ref().map(|v| format!("; given up: {v}")).unwrap_or_default()
        ));
        total.truncated |= a.bound.is_some();
        total.execs += a.schedules;
        total.steps += a.switches;
        nviols += a.bad.len();
        if code == 0 && !a.bad.is_empty() {
            let path = format!("{dir}/evidence/replay-{id}-{tname}.txt");
            let mut text = format!("property {id}\ntier {tname}\nscenario {ATOMS}\nchoices \n\n");
            for m in &a.bad {
                println!("  {m}");
                text += &format!("! {m}\n");
            }
            text += &format!("\nTo run it again: bash /verif/run.sh replay {path}\n");
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            let _ = std::fs::write(&path, text);
            println!("VIOLATION property={id} replay={path}");
            code = 1;
        }
    }
    if total.left > 0 {
        notes.push(format!("stopped after {LIMIT} s: {} of {njobs} parts of the exploration were not begun", total.left));
    }
    if id == "C18" {
        if cfg!(not(feature = "atoms")) {
            notes.push("the statistics module does not compile on its own: concurrent updates not explored".into());
        }
        if cfg!(not(feature = "stats")) {
            notes.push("the statistics cannot be read: only the traffic is checked".into());
        }
    }
    harness.extend(total.errors.iter().cloned());
    if code == 0 && !harness.is_empty() {
        for h in harness.iter().take(10) {
            println!("HARNESS ERROR {h}");
        }
        code = 2;
    }
    // evidence
    let wall = start.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut o = String::new();
    o += &format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        js(id),
        js(tname)
    );
    o += &format!("  \"states\": {},\n", total.states.len());
    o += &format!("  \"transitions\": {},\n", total.steps);
    o += &format!("  \"traces_validated_against_impl\": {},\n", total.execs);
    o += &format!("  \"scenarios\": {},\n", scs.len());
    o += &format!("  \"decisions\": {},\n", total.choices);
    o += &format!("  \"exhaustive\": {},\n", !total.truncated && total.left == 0 && code != 2);
    let mut budgets: BTreeMap<u32, usize> = BTreeMap::new();
    for s in &scs {
        *budgets.entry(s.budget).or_default() += 1;
    }
    o += &format!(
        "  \"scenarios_by_deviation_bound\": {},\n",
        js(&format!("{budgets:?}"))
    );
    o += &format!("  \"bounds\": {},\n", js(fams::bounds(id)));
    if !notes.is_empty() {
        o += &format!("  \"notes\": {},\n", js(&notes.join("; ")));
        println!("{}", notes.join("\n"));
    }
    total.samples.sort_by_key(|s| s.len());
    let pick: Vec<String> = {
        let n = total.samples.len();
        [n / 2, n * 3 / 4].iter().filter_map(|i| total.samples.get(*i)).map(|s| s.chars().take(3000).collect()).collect()
    };
    o += &format!("  \"samples\": [{}]\n }},\n", pick.iter().map(|s: &String| js(s)).collect::<Vec<_>>().join(", "));
    o += " \"assumptions\": [\"tokio runs tasks as its vendored copy does under the explorer: preemption only at await points that poll a tokio resource\", \"TCP delivers bytes in order\"],\n";
    o += &format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", nviols);
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{id}.json"), o).expect("evidence");
    println!(
        "{id} {tname}: {} scenarios, {} executions, {} transitions, {} states, {:.1} s{}",
        scs.len(),
        total.execs,
        total.steps,
        total.states.len(),
        wall,
        if total.truncated { " (truncated)" } else { "" }
    );
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn read_journal(path: &str) -> (u64, usize, Vec<u16>) {
    let b = std::fs::read(path).unwrap_or_default();
    if b.len() < 24 {
        return (0, 0, vec![]);
    }
    let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let n = u(16) as usize;
    let p = (0..n)
        .filter_map(|k| b.get(24 + 2 * k..26 + 2 * k))
        .map(|x| u16::from_le_bytes([x[0], x[1]]))
        .collect();
    (u(0), u(8) as usize, p)
}

fn run_worker(w: usize, id: &str, tier: Tier, jobs: Arc<Mutex<Vec<String>>>, total: Arc<Mutex<Total>>) {
    let begun = Instant::now();
    let journal = std::env::temp_dir().join(format!("mc-{}-{w}", std::process::id())).to_string_lossy().to_string();
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    'respawn: loop {
        if jobs.lock().unwrap().is_empty() {
            break;
        }
        let _ = std::fs::remove_file(&journal);
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, tname, &journal])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let mut stdin = ch.stdin.take().unwrap();
        let mut stdout = BufReader::new(ch.stdout.take().unwrap());
        let pid = ch.id();
        // watchdog
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let hung = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let busy = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let wd = {
            let (done, hung, busy, journal) = (done.clone(), hung.clone(), busy.clone(), journal.clone());
            std::thread::spawn(move || {
                let mut last = (0, Instant::now());
                while !done.load(std::sync::atomic::Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let b = read_journal(&journal).0;
                    if b != last.0 || !busy.load(std::sync::atomic::Ordering::SeqCst) {
                        last = (b, Instant::now());
                    } else if last.1.elapsed() > Duration::from_secs(HANG) {
                        hung.store(true, std::sync::atomic::Ordering::SeqCst);
                        let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                        return;
                    }
                }
            })
        };
        let mut died = false;
        loop {
            let Some(job) = ({ jobs.lock().unwrap().pop() }) else { break };
            if begun.elapsed() > Duration::from_secs(LIMIT) {
                let mut js = jobs.lock().unwrap();
                total.lock().unwrap().left += 1 + js.len();
                js.clear();
                break;
            }
            let t0 = Instant::now();
            busy.store(true, std::sync::atomic::Ordering::SeqCst);
            let ok = writeln!(stdin, "{job}").is_ok() && stdin.flush().is_ok();
            let r = if ok { read_result(&mut stdout) } else { None };
            if std::env::var_os("MC_TIMES").is_some() {
                eprintln!("{:8} ms, jobs {job}", t0.elapsed().as_millis());
            }
            busy.store(false, std::sync::atomic::Ordering::SeqCst);
            match r {
                Some((t, bad)) => {
                    let mut tt = total.lock().unwrap();
                    tt.execs += t.execs;
                    tt.steps += t.steps;
                    tt.choices += t.choices;
                    tt.truncated |= t.truncated;
                    tt.states.extend(t.states);
                    tt.samples.extend(t.sample);
                    tt.bad.extend(bad);
                    if tt.bad.len() > 3000 {
                        // enough to report
                        jobs.lock().unwrap().clear();
                        tt.truncated = true;
                    }
                }
                None => {
                    died = true;
                    break;
                }
            }
        }
        drop(stdin);
        let status = ch.wait();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = wd.join();
        if died {
            let (_, i, p) = read_journal(&journal);
            let what = if hung.load(std::sync::atomic::Ordering::SeqCst) {
                format!("the broker process hangs (no step for {HANG} s)")
            } else {
                format!("the broker process dies: {status:?}")
            };
            let mut tt = total.lock().unwrap();
            tt.bad.push((i, p, vec![what]));
            tt.truncated = true;
            let deaths = tt.bad.iter().filter(|b| b.2[0].starts_with("the broker process")).count();
            if deaths >= 4 {
                jobs.lock().unwrap().clear();
            }
            continue 'respawn;
        }
        break;
    }
    let _ = std::fs::remove_file(&journal);
}

fn read_result(r: &mut impl BufRead) -> Option<(Tally, Vec<(usize, Vec<u16>, Vec<String>)>)> {
    let mut l = String::new();
    if r.read_line(&mut l).ok()? == 0 || !l.ends_with('\n') {
        return None;
    }
    let mut f = l.trim_end_matches('\n').splitn(7, ' ');
    let mut num = || f.next()?.parse::<u64>().ok();
    let mut t = Tally { execs: num()?, steps: num()?, choices: num()?, truncated: num()? != 0, ..Default::default() };
    let ns = num()? as usize;
    let nb = num()? as usize;
    let s = f.next().unwrap_or("");
    if !s.is_empty() {
        t.sample = Some(unesc(s));
    }
    let mut b = vec![0u8; ns * 8];
    r.read_exact(&mut b).ok()?;
    t.states = b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    let mut bad = vec![];
    for _ in 0..nb {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        let mut f = l.trim_end_matches('\n').split('\t');
        let (i, p) = f.next()?.split_once(' ')?;
        let p = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        bad.push((i.parse().ok()?, p, f.map(unesc).collect()));
    }
    Some((t, bad))
}

fn replay(path: &str) -> i32 {
    install_panic_hook();
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let tier = if get("tier ") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let (id, name) = (get("property "), get("scenario "));
    let prefix: Vec<u16> = get("choices ").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    if name == ATOMS {
        #[cfg(feature = "atoms")]
        {
            let r = atom::explore(tier == Tier::Thorough);
            for m in &r.bad {
                println!("! {m}");
            }
            if r.bad.is_empty() {
                println!("no violation");
                return 0;
            }
            println!("VIOLATION property={id} replay={path}");
            return 1;
        }
        #[cfg(not(feature = "atoms"))]
        return 2;
    }
    let scs = fams::scenarios(&id, tier);
    let Some(sc) = scs.into_iter().find(|s| s.name == name) else {
        eprintln!("no scenario {name}");
        return 2;
    };
    let sc = Arc::new(sc);
    let (a, _) = execute(&sc, &prefix);
    let (b, _) = execute(&sc, &prefix);
    print!("{}", a.render());
    let v = judge(&sc, &a);
    if a.render() != b.render() {
        println!("HARNESS ERROR: two executions of the same choices differ");
        return 2;
    }
    for m in &v {
        println!("! {m}");
    }
    if v.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={id} replay={path}");
        1
    }
}
