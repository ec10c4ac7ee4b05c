mod apart;
mod codec;
mod connect;
mod core;
mod cost;
mod faults;
mod hostile;
mod jsonref;
mod memory;
mod net;
mod proto;
mod rng;
mod runner;
mod saturate;
mod session;
mod shapes;
mod sim;
mod stages;
mod stress;
mod ws;

use crate::core::CaseFn;

#[global_allocator]
static ALLOC: memory::Counting = memory::Counting;


pub struct Workload {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: CaseFn,
    /// cases of a quick run
    pub quick: u64,
    pub thorough: u64,
    /// each case runs on a thread of its own
    pub sim: bool,
    /// threads of a case that poll tasks
    pub threads: u64,
    /// real threads race
    pub stress: bool,
}

const fn wl(prop: &'static str, name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Workload {
    Workload { prop, name, f, quick, thorough, sim: false, threads: 1, stress: false }
}

const fn sim(prop: &'static str, name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Workload {
    Workload { prop, name, f, quick, thorough, sim: true, threads: 1, stress: false }
}

/// A scenario with a helper thread.
const fn eager(prop: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Workload {
    Workload { prop, name: "eager", f, quick, thorough, sim: true, threads: 2, stress: false }
}

/// Real threads at full speed.
const fn thr(prop: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Workload {
    Workload { prop, name: "threads", f, quick, thorough, sim: true, threads: 1, stress: true }
}

pub const WORKLOADS: &[Workload] = &[
    wl("C01", "generated", codec::c01, 1_200_000, 20_000_000),
    wl("C01", "near-misses", codec::c01_near, 1_200_000, 20_000_000),
    wl("C02", "malformed", codec::c02, 4_000_000, 30_000_000),
    wl("C02", "attachments", codec::c02_attachments, 1_500_000, 10_000_000),
    wl("C03", "decode", codec::c03_decode, 300_000, 10_000_000),
    sim("C03", "session", hostile::c03_session, 20_000, 2_000_000),
    wl("C04", "encode", codec::c04, 3_000_000, 15_000_000),
    wl("C05", "dynamic", codec::c05, 900_000, 15_000_000),
    wl("C05", "typed", codec::c05_typed, 900_000, 15_000_000),
    wl("C06", "failures", codec::c06, 2_500_000, 15_000_000),
    wl("C07", "differential", codec::c07, 600_000, 15_000_000),
    wl("C07", "bytes", codec::c07_bytes, 400_000, 10_000_000),
    wl("C07", "key-order", codec::c07_order, 60_000, 1_000_000),
    wl("C08", "automaton", codec::c08, 800_000, 15_000_000),
    wl("C09", "framing", codec::c09, 2_000_000, 15_000_000),
    wl("C10", "windows", codec::c10, 6_000_000, 15_000_000),
    sim("C11", "sessions", session::c11, 8_000, 1_000_000),
    sim("C12", "sessions", session::c12, 8_000, 1_000_000),
    sim("C13", "sessions", session::c13, 8_000, 1_000_000),
    sim("C14", "sessions", session::c14, 8_000, 1_000_000),
    sim("C15", "sessions", session::c15, 8_000, 1_000_000),
    sim("C16", "sessions", session::c16, 8_000, 1_000_000),
    sim("C17", "sessions", session::c17, 8_000, 1_000_000),
    sim("C18", "sessions", session::c18, 8_000, 1_000_000),
    eager("C12", stress::c12_eager, 3_000, 300_000),
    eager("C13", stress::c13_eager, 3_000, 300_000),
    eager("C14", stress::c14_eager, 3_000, 300_000),
    eager("C15", stress::c15_eager, 3_000, 300_000),
    eager("C16", stress::c16_eager, 3_000, 300_000),
    eager("C17", stress::c17_eager, 3_000, 300_000),
    thr("C11", stress::c11_threads, 2_000, 300_000),
    thr("C12", stress::c12_threads, 2_000, 300_000),
    thr("C13", stress::c13_threads, 2_000, 300_000),
    thr("C14", stress::c14_threads, 2_000, 300_000),
    thr("C15", stress::c15_threads, 2_000, 300_000),
    thr("C16", stress::c16_threads, 2_000, 300_000),
    thr("C17", stress::c17_threads, 2_000, 300_000),
    thr("C18", stress::c18_threads, 2_000, 300_000),
    eager("C20", stress::c20_eager, 6_000, 300_000),
    thr("C20", stress::c20_threads, 3_000, 300_000),
    thr("C22", stress::c22_threads, 3_000, 300_000),
    sim("C11", "two", stress::c11_two, 4_000, 500_000),
    sim("C12", "two", stress::c12_two, 4_000, 500_000),
    sim("C14", "two", stress::c14_two, 4_000, 500_000),
    sim("C15", "two", stress::c15_two, 4_000, 500_000),
    sim("C16", "two", stress::c16_two, 4_000, 500_000),
    sim("C18", "two", stress::c18_two, 4_000, 500_000),
    sim("C11", "long", faults::c11_long, 80, 4_000),
    sim("C12", "long", faults::c12_long, 80, 4_000),
    sim("C14", "long", faults::c14_long, 80, 4_000),
    sim("C15", "long", faults::c15_long, 40, 4_000),
    sim("C16", "long", faults::c16_long, 80, 4_000),
    sim("C17", "long", faults::c17_long, 80, 4_000),
    sim("C18", "long", faults::c18_long, 80, 4_000),
    sim("C13", "panics", faults::c13_panic, 6_000, 500_000),
    sim("C14", "unmatched", faults::c14_unmatched, 6_000, 500_000),
    sim("C14", "many", faults::c14_many, 200, 4_000),
    sim("C18", "text", faults::c18_text, 6_000, 500_000),
    sim("C19", "connect", connect::c19, 300_000, 3_000_000),
    sim("C23", "urls", connect::c23, 600_000, 3_000_000),
    sim("C20", "close", faults::c20, 60_000, 1_000_000),
    sim("C21", "failures", faults::c21, 60_000, 1_000_000),
    sim("C22", "drop", faults::c22, 50_000, 1_000_000),
    sim("C24", "floods", saturate::c24, 9_000, 200_000),
    sim("C25", "steady", memory::c25_steady, 250, 40_000),
    sim("C25", "brief", memory::c25_brief, 8_000, 1_000_000),
    wl("C25", "strings", memory::c25_strings, 200_000, 10_000_000),
    thr("C25", memory::c25_races, 2_000, 200_000),
    wl("C26", "views", codec::c26, 300_000, 15_000_000),
    wl("C27", "codec", cost::c27_codec, 480, 12_000),
    sim("C27", "sessions", cost::c27_sessions, 240, 8_000),
    sim("C27", "beside", cost::c27_beside, 800, 20_000),
    sim("C28", "clients", apart::c28_clients, 12_000, 1_000_000),
    sim("C28", "packets", apart::c28_packets, 40_000, 3_000_000),
];

fn main() {
    std::process::exit(runner::main());
}

/// What makes a case count as distinct and non-trivial.
pub const RULES: &[(&str, &str)] = &[
    ("C01", "distinct (text, attachments) inputs with more than one argument, a namespace, an id or an attachment"),
    ("C02", "distinct malformed inputs that differ from a well-formed packet by an edit, or attachment lists that do not fit"),
    ("C03", "distinct hostile inputs (decoder) and distinct recorded histories of hostile sessions (client)"),
    ("C04", "distinct (type, namespace, id, mode, argument list) packets with at least one argument besides the name"),
    ("C05", "distinct argument lists with nesting or byte sequences"),
    ("C06", "distinct builds in which at least one argument failed"),
    ("C07", "distinct (argument text, target type) pairs read next to attachments"),
    ("C08", "distinct message sequences of at least two messages"),
    ("C09", "distinct payloads that are not empty, and distinct open packets"),
    ("C10", "distinct (contents, sequence of restrictions) with at least one proper restriction"),
    ("C11", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C12", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C13", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C14", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C15", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C16", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C17", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C18", "distinct recorded histories (who did what in which order) of at least 6 records"),
    ("C19", "distinct (server behaviour, transport fault, timing) connection attempts"),
    ("C20", "distinct recorded histories of sessions that end in a close, with the way the server completes it"),
    ("C21", "distinct recorded histories of sessions that end in a failure, with the failure"),
    ("C22", "distinct recorded histories of sessions that end in a drop, with the moment of the drop"),
    ("C23", "distinct URLs"),
    ("C24", "distinct saturated sessions (direction, sizes, moments of the measured emissions)"),
    ("C25", "distinct cases run under the interpreter or a sanitizer"),
    ("C26", "distinct argument lists with at least two arguments"),
    ("C27", "distinct operations, each measured at four sizes or more, up to thousands of times the smallest"),
    ("C28", "distinct bystanders (sessions or series of packets) with what was around, inside and beside them"),
];
