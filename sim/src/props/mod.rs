//! One module per group of properties.  Each `cNN` is one simulated run.

mod attr;
mod copies;
mod decode;
mod faults;
mod group;
mod heap;
mod live;
mod many;
mod parts;
mod prims;
mod ring;
mod total;

use crate::ctx::*;

pub struct Info {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    run: fn(&Ctx) -> Res,
}

const K: u64 = 1000;

pub static INFO: &[Info] = &[
    Info { id: "C01", quick: 1500 * K, thorough: 45000 * K, run: decode::c01,
        rule: "A run is a stream of 1-6 model-written non-SAMPLE records under a drawn configuration and byte order, delivered by a drawn plan (pieces, slice, BufReader with EINTR and short reads) and parsed through drawn entry points; every accessor is compared with the model." },
    Info { id: "C02", quick: 1000 * K, thorough: 30000 * K, run: decode::c02,
        rule: "As C01, with SAMPLE records under drawn sample_type/read_format/register masks." },
    Info { id: "C03", quick: 1200 * K, thorough: 36000 * K, run: decode::c03,
        rule: "A run parses a stream of records with sample-id trailers (and some without) cut near the body/trailer boundary; trailers are compared with the model, bodies with the same record parsed without its trailer." },
    Info { id: "C04", quick: 1500 * K, thorough: 45000 * K, run: decode::c04,
        rule: "A run delivers one stream (well-formed, corrupted or truncated; records or an attribute block) by a drawn plan and compares every outcome and position with one aligned slice." },
    Info { id: "C05", quick: 150 * K, thorough: 4500 * K, run: ring::c05,
        rule: "A run is either a stream mixing intact, unknown, over-long and malformed records, or a producer/consumer history on a ring buffer with overwrite pressure; positions, order and loss accounting are checked." },
    Info { id: "C06", quick: 2000 * K, thorough: 60000 * K, run: faults::c06,
        rule: "A run places a permanent source failure (or end of data) at a drawn byte of a stream of records, attribute blocks or primitive items, and checks each item before, across and at the failure." },
    Info { id: "C07", quick: 500 * K, thorough: 15000 * K, run: faults::c07,
        rule: "A run parses a stream through BufReader over a reader that is interrupted and returns short; outcomes are compared with uninterrupted parsing of each record alone." },
    Info { id: "C08", quick: 2000 * K, thorough: 60000 * K, run: total::c08,
        rule: "A run feeds arbitrary, corrupted or hostile bytes under arbitrary attribute bits through a faulty source to a drawn parseable type, then inspects, formats, clones, converts and drops the result." },
    Info { id: "C09", quick: 1500 * K, thorough: 45000 * K, run: decode::c09,
        rule: "A run corrupts the stored bytes of a stream (flips, overwritten, zeroed and duplicated spans, inflated counts) and compares every record with an independent reference decoder." },
    Info { id: "C10", quick: 1200 * K, thorough: 36000 * K, run: total::c10,
        rule: "A run plants hostile lengths and counts in a record, attribute block or primitive request and measures the peak heap use of each parse call against the bytes delivered." },
    Info { id: "C11", quick: 1000 * K, thorough: 30000 * K, run: heap::c11,
        rule: "A run is a history of parse/clone/convert/inspect/drop operations, executed twice with different heap garbage, with panics injected into source calls and visitor callbacks; the simulated heap is audited at the end." },
    Info { id: "C12", quick: 1200 * K, thorough: 36000 * K, run: copies::c12,
        rule: "A run parses records, clones and converts them, drops and overwrites the source memory in a drawn order, and re-reads every retained copy." },
    Info { id: "C13", quick: 800 * K, thorough: 24000 * K, run: decode::c13,
        rule: "A run parses the same record (intact or corrupted) through every entry point and five visitors that implement a single method (drawn from all 22) or none, over the same delivery." },
    Info { id: "C14", quick: 2000 * K, thorough: 60000 * K, run: attr::c14,
        rule: "A run parses a serialized attribute block of a drawn size followed by records it configures, under drawn delivery, truncation and byte order." },
    Info { id: "C15", quick: 1500 * K, thorough: 45000 * K, run: group::c15,
        rule: "A run parses a counter group under drawn delivery and drives a drawn history of double-ended iterator and lookup operations against a deque model." },
    Info { id: "C16", quick: 60 * K, thorough: 2400 * K, run: many::c16,
        rule: "A run drives 2-4 parsers as real threads that the simulator preempts at source calls and callbacks (in one run of 21 between any two instructions of the library), or alternating on one thread, or nested inside each other's callbacks." },
    Info { id: "C17", quick: 1200 * K, thorough: 36000 * K, run: faults::c17,
        rule: "A run makes drawn source calls fail transiently and retries the same parse on the same parser until it succeeds; results are compared with the undisturbed stream." },
    Info { id: "C18", quick: 1200 * K, thorough: 36000 * K, run: prims::c18,
        rule: "A run is a drawn history of primitive parser calls over a drawn delivery, compared call by call with a cursor over a byte vector." },
    Info { id: "C19", quick: 400 * K, thorough: 12000 * K, run: parts::c19,
        rule: "A run parses a stream of records or of bare library types, intact or damaged, from a source that may fail; every value and every error met is rendered in drawn styles, the text is read back and compared with the accessors and with the error's cause, and rendered again into writers that refuse bytes at drawn places." },
    Info { id: "C20", quick: 1000 * K, thorough: 30000 * K, run: parts::c20,
        rule: "A run parses a drawn sequence of library types on their own (counters, registers, branches, flags, identities, record bodies, whole records, repeated, optional and borrowed ones) from one stream, intact or damaged, under drawn delivery and configuration, and compares values, rejections and positions with a reference decoder." },
    Info { id: "C21", quick: 1000 * K, thorough: 30000 * K, run: parts::c21,
        rule: "A run parses such a sequence with a drawn history of clones: parsing on with any of them, through transient source failures, dropping, saving and restoring them, and starting anew from their configuration; every clone must give what its position denotes and leave the others alone." },
    Info { id: "C22", quick: 1000 * K, thorough: 30000 * K, run: live::c22,
        rule: "A run lets a simulated writer hand over records, bare library types, attribute blocks and primitive items one at a time, waiting for the reader after each (sometimes running ahead), by a drawn delivery; a source call for a byte the writer holds back, or an item that is not returned although it is complete, is a violation." },
];

pub fn info(id: &str) -> Option<&'static Info> {
    INFO.iter().find(|i| i.id == id)
}

/// Properties whose every run starts from a fresh copy of the process, because they are about
/// what parsers share.
pub fn isolated(id: &str) -> bool {
    id == "C16"
}

pub fn run(id: &str, c: &Ctx) -> Res {
    (info(id).expect("property").run)(c)
}
