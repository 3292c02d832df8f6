//! The scenario families, one per property.

use crate::engine::*;
use crate::Tier;

mod conc;
mod deep;
mod dress;
mod life;
mod load;
mod mem;
mod route;
mod time;
mod wire;

pub fn bounds(id: &str) -> &'static str {
    match id {
        "C01" => "every valid filter of up to 3 levels over {'', a, b, $s, +, #} against every topic of up to 3 levels over {'', a, b, $s}; every pair of 31 filters on one client and on two; 84 unusual names all against all; levels of up to 65,000 bytes, up to 200 levels; up to 1,100 filters and 300 subscribers with one or several filters; 4 default schedules with deviations",
        "C02" => "all histories of 3 (thorough 4-5) SUBSCRIBE/UNSUBSCRIBE over 6 filters by one client and over 3 nested or overlapping filters by two clients, probed at QoS 2 after each step; packets with several filters in all combinations; removal of every k-th of up to 4,200 filters; two races with 2 (thorough 3) deviations",
        "C03" => "all payload sizes around every length boundary (0-300, 8 KiB, 16 KiB, 64 KiB, 2 MiB; thorough up to the protocol's maximum), every payload size and every topic length up to 9,000 (thorough 40,000), topic lengths around 1..65,535, all payloads of up to two bytes and of three special ones, all characters up to U+0180 (thorough U+FFFF), pairs of sizes, all QoS, writes accepted in pieces",
        "C04" => "all 3x3 QoS with one and two overlapping subscriptions, all acknowledgement histories of up to 4 operations, identifiers over more than 65,535 deliveries, up to thousands of deliveries waiting, all identifiers in use, races with 2 (thorough 3) deviations",
        "C05" => "two and three publishers and a reader under every schedule with up to 1 (thorough 2) deviations from 4 default schedules, writes accepted in part, bursts of 1 to 1,000 messages around the capacities of all queues, mixed topics and sizes, 3 races with 2 (thorough 3) deviations, all identifiers in use",
        "C06" => "a subscribing or unsubscribing client against publishers under every schedule with up to 1 (thorough 2) deviations, requests pipelined with messages, bursts of 1 to 500, 5 races with 2 (thorough 3) deviations",
        "C07" => "all sequences of 4 (thorough 5) requests of 20 kinds, one by one and pipelined, all 65,536 packet identifiers, SUBSCRIBE of many filters and all short ones with repetitions, pipelines of 600 (thorough 5,000) requests with a slow reader, 4 default schedules with deviations",
        "C08" => "all histories of 4 (thorough 6) of PUBLISH, retransmission, PUBREL, PUBREC, PUBCOMP, PUBACK and SUBSCRIBE over 2 identifiers, one by one and pipelined, two publishers, up to 65,535 identifiers in use, new connections, 2 races with 2 (thorough 3) deviations",
        "C09" => "every cut into two pieces and pieces of every size up to 40 of 11 conversations, every segmentation of short ones, cuts within length fields, writes accepted in every number of bytes up to 40 and in halves, with schedules",
        "C10" => "every first byte with every body of up to 3 (thorough 4) bytes over 6 values, every single-byte change of 14 valid packets to every value, all packets with every length field changed or their body shifted, all type/flag/length nibbles, malformed requests in every position of a pipeline with schedules, 1,500 (thorough 6,000) bad connections in turn",
        "C11" => "every packet type as the first, all 256 CONNECT flags, all 256 levels, all field truncations, 56 identifiers, all sequences of two packets of every kind, well-formed and not, pipelined and not, second CONNECTs, 1,500 (thorough 6,000) refused connections in turn, a race with 2 (thorough 3) deviations",
        "C12" => "2-4 connections with one identifier (clean and persistent), the older one idle, subscribing, publishing, ending in 5 ways, at every relative position, under 4 default schedules with 1 (thorough 2) deviations; up to 8 at once; chains of takeovers; 56 pairs of similar identifiers; 4 races with 2 (thorough 3, the two largest 2) deviations",
        "C13" => "all histories of 3 (thorough 4) of subscribe, unsubscribe, end, reconnect with and without clean session; 16 x 16 ways in which two successive connections of a session end; 17 filters kept over ends; two clients; sessions by the hundred, of up to hundreds of filters and over hundreds of connections; 2 races and clean/persistent reconnections with deviations",
        "C14" => "loss at every step of a conversation x 4 kinds of loss x schedules with 1 (thorough 2) deviations; loss while a write is stuck at every offset up to 48; failing accepts of every kind; 1,500 (thorough 6,000) losses in turn; a race with 2 (thorough 3) deviations",
        "C15" => "1 to 3,000 (thorough 70,000) messages to a client that does not read, 1 to 3 flooding clients that do not read, 9,998 to 12,000 waiting messages, several full queues, 1,100 readers that stall, clients that join meanwhile, silent clients, up to 66,000 unanswered requests, under FIFO and LIFO schedules, deviations while the queue is nearly full, a race with 2 (thorough 3)",
        "C16" => "all timing histories of 2 (thorough 3) packets of 10 kinds, whole, in pieces and unread, with gaps around the limits in virtual time; 7 (thorough 16) keep-alives, silence and the limit for all up to 300 and around powers of 2 (thorough every 13th up to 65,535); late, partial and missing CONNECTs; successive connections of a client; schedules",
        "C17" => "the signal at every step of conversations under 4 default schedules with 1 (thorough 2) deviations, among arriving connections, with stalled readers and queues of 1 to 12,000 messages, with up to 300 clients, a race with 2 (thorough 3) deviations",
        "C18" => "all histories of 2 (thorough 3) packets of 13 kinds and 8 ends of a connection, ends before CONNECT, takeovers, time-outs, failing writes at 6 offsets, all size boundaries, more than 65,535 packets and deliveries, 300 clients, schedules with 1 (thorough 2) deviations; all interleavings of atomic operations of 2 and 3 threads updating the counters",
        "C19" => "all strings of up to 6 (thorough 8) characters over {a, /, +, #} as filter, several per SUBSCRIBE and one by one, shorter ones also below '$share/g/', '$share/', '$SYS/' and four levels, and as topic; strange names and groups; filters of up to 200 levels; held subscriptions next to refused ones",
        "C20" => "every filter of 7 in every place of 5 (two groups, the empty group, another '$' name, none), all pairs of places for equal filters with 4 clients, near-identical group names of all lengths, and other '$' names, with long filters, all histories of 3 (thorough 4) by two clients over 3 sets, sessions that persist or not, schedules and a race with deviations",
        "C21" => "45 units of work (connections and their ends, subscriptions, requests, deliveries, malformed and incomplete packets) repeated 5-12 times in up to all ordered pairs; all bytes the broker allocates are counted",
        "C22" => "a message and its answer at all QoS under every schedule with up to 1 (thorough 2) deviations from 4 default schedules; chains of up to 6 (thorough 12) answers; observers up to 5,000 (thorough 9,000) messages behind, slow, returning; up to 300 subscribers; messages of up to 3 MB; 2 races with 2 (thorough 3) deviations",
        _ => "",
    }
}

pub fn scenarios(id: &str, t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    match id {
        "C01" => route::c01(t, &mut v),
        "C02" => route::c02(t, &mut v),
        "C03" => wire::c03(t, &mut v),
        "C04" => wire::c04(t, &mut v),
        "C05" => conc::c05(t, &mut v),
        "C06" => conc::c06(t, &mut v),
        "C07" => wire::c07(t, &mut v),
        "C08" => wire::c08(t, &mut v),
        "C09" => wire::c09(t, &mut v),
        "C10" => wire::c10(t, &mut v),
        "C11" => life::c11(t, &mut v),
        "C12" => life::c12(t, &mut v),
        "C13" => life::c13(t, &mut v),
        "C14" => life::c14(t, &mut v),
        "C15" => load::c15(t, &mut v),
        "C16" => time::c16(t, &mut v),
        "C17" => load::c17(t, &mut v),
        "C18" => load::c18(t, &mut v),
        "C19" => route::c19(t, &mut v),
        "C20" => route::c20(t, &mut v),
        "C21" => mem::c21(t, &mut v),
        "C22" => conc::c22(t, &mut v),
        _ => {
            eprintln!("no check for {id}");
            std::process::exit(2);
        }
    }
    if matches!(id, "C05" | "C15") {
        v.push(wire::all_in_use(2, 60, true));
        v.push(wire::all_in_use(1, 9_900, true));
    }
    let n = if t == Tier::Thorough { 6000 } else { 1500 };
    match id {
        "C10" => v.push(life::many_malformed(n)),
        "C11" => v.push(life::many_refused(n)),
        _ => {}
    }
    deep::deep(id, t, &mut v);
    // (these look at such details themselves)
    if !matches!(id, "C09" | "C10" | "C11" | "C21") {
        dress::dress(id, &mut v);
    }
    // for development: only some of them
    if let Ok(f) = std::env::var("MC_ONLY") {
        v.retain(|s| s.name.contains(&f));
    }
    v
}

/// The scenario under four different default schedules.
pub fn vary(s: Scenario, out: &mut Vec<Scenario>) {
    for (i, (p, e)) in
        [(Policy::Fifo, false), (Policy::Lifo, true), (Policy::Fifo, true), (Policy::Lifo, false)].into_iter().enumerate()
    {
        let mut x = s.clone();
        x.policy = p;
        x.eager = e;
        x.select_default = i as u32;
        x.hash_seed = i as u64;
        x.name = format!("{} [{}{} s{i}]", s.name, if p == Policy::Fifo { "fifo" } else { "lifo" }, if e { " eager" } else { "" });
        out.push(x);
    }
}
