//! The properties and the scenarios which decide them.
use crate::world::*;
pub mod codes;
mod cost;
mod heap;
mod hostile;
mod kel;
mod machine;
mod paths;
mod saids;
pub mod sign;
mod threads;
mod thresholds;
mod streams;

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn(&mut Ctx) -> R<()>,
    pub quick: u64,
    pub thorough: u64,
    /// every run in a process of its own
    pub fresh: bool,
    pub rule: &'static str,
    pub states: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const NODES: &str = "hash of every node's progress (items held, bytes waiting, up or down) after each event";
const STREAM_RULE: &str = "a run is one seeded chain of 2-4 nodes relaying 1-24 items over a lossy, reordering, fragmenting network with crashing disks; non-trivial: it called the library and judged what it returned; distinct: by hash of all events, deliveries, faults and values";
const REAL: &[&str] = &["cesride (all of it, compiled from /repo's working tree)", "its cryptographic and JSON dependencies"];
const STUBS: &[&str] = &["network", "disk", "clock (clock_gettime)", "entropy (getrandom)", "nodes and protocol around the library"];
const STUBS_T: &[&str] = &["thread scheduler (real threads, one runs at a time, the simulator picks which)", "futex waits and wakes", "clock (clock_gettime)", "entropy (getrandom)"];
const TRUST: &[&str] = &["the reference model of the CESR tables in sim/src/refc.rs", "rustc, the instrumentation pass and the operating system below the seams"];

const HOSTILE_RULE: &str = "a run is one seeded sequence of hostile deliveries, damaged in transit and on disk, to every reader and accessor; non-trivial: it called the library and judged the outcome; distinct: by hash of everything delivered and every fault";

const DAMAGE_RULE: &str = "a run sends 1-10 packets of 1-3 encoded items over a corrupting, truncating, duplicating network to a node with a rotting disk, and sweeps every small alteration of some of them; non-trivial: the library judged damaged bytes; distinct: by hash of everything delivered";
const ROUTE_RULE: &str = "a run routes 4-28 items of any code, right or wrong, to the readers of 14 kinds and builds more from raw material; non-trivial: the library judged them; distinct: by hash of everything delivered";

const SIGN_RULE: &str = "a run has 1-4 signing nodes sign 1-8 messages, crash and restart them, and delivers the signed packets, some of them forged, over a network to verifiers; non-trivial: the library signed or verified and was judged; distinct: by hash of all signatures, messages, deliveries and faults";
const TRUST_KEYS: &[&str] = &["the cryptographic crates ed25519-dalek, k256, p256 (used directly as the other implementation)", "the reference model of the CESR tables in sim/src/refc.rs", "rustc, the instrumentation pass and the operating system below the seams"];

const SAID_RULE: &str = "a run makes 1-5 contents self-addressing, sends them and altered versions of them over a corrupting network and a rotting disk, and verifies whatever still parses; non-trivial: the library computed or verified an identifier and was judged; distinct: by hash of all contents, deliveries and faults";
const PREFIX_RULE: &str = "a run has 1-4 controllers derive prefixes from inception events and verifiers receive the events, altered events and other prefixes; non-trivial: the library derived or verified and was judged; distinct: by hash of all deliveries and faults";
const TRUST_DIGESTS: &[&str] = &["the digest crates blake3, blake2, sha2, sha3 (used directly as the other implementation)", "the reference models in sim/src/refc.rs and sim/src/refj.rs", "rustc, the instrumentation pass and the operating system below the seams"];

const RULE_RULE: &str = "a run declares 1-3 thresholds, delivers signer indices one at a time over a lossy, duplicating, reordering network to a node which crashes and rereads the threshold from one of its stored forms, and asks after each; non-trivial: the library decided and was judged; distinct: by hash of the rules and all faults";

const SALT_RULE: &str = "a run has 1-3 wallets derive keys, singly and in batches, crash, reread their salt from one of its stored forms and derive again, while the clock jumps and the entropy source fails; non-trivial: the library derived and was judged; distinct: by hash of everything derived and all faults";
const ENTROPY_RULE: &str = "a run is one process generating 2-10 salts and keys while the entropy source below it follows a seeded script of interruptions, short, late, failed, refused and degenerate reads, the last generation with every fault healed; non-trivial: the library was asked for a secret and judged; distinct: by hash of every request, delivery and outcome";
const TIME_RULE: &str = "a run makes 1-8 timestamps, of now on a jumping, skewed, stalled clock or given, and relays them over nodes which crash; non-trivial: the library made or read a timestamp and was judged; distinct: by hash of all timestamps and faults";
const TRUST_ARGON: &[&str] = &["the argon2 crate (used directly as the other implementation)", "the cryptographic crates ed25519-dalek, k256, p256", "the reference model of the CESR tables in sim/src/refc.rs", "rustc, the instrumentation pass and the operating system below the seams"];

const THREAD_RULE: &str = "a run is one process in which 2-5 threads make 1-6 calls each, on values of their own and on shared ones, under a seeded scheduler which preempts at basic-block edges, allocations, locks and system calls; non-trivial: the calls were compared with the same calls alone in another process; distinct: by hash of the calls and of the schedule";

const HEAP_RULE: &str = "a run makes, imports, derives, uses, fails and drops 1-10 secrets, and looks through every block of memory the library releases, as it is released; non-trivial: the library handled a secret; distinct: by hash of the operations, their outcome and the bytes released";

const COST_RULE: &str = "a run delivers 2-9 items, messages, texts, thresholds and streams, whole and in fragments, whose claimed sizes may lie, and measures every call; non-trivial: the library read something and its cost was judged; distinct: by hash of everything delivered";

const KEL_RULE: &str = "a run has 2-4 nodes, 1-2 of them controllers of multi-key identifiers, keep logs of up to 6 (thorough 10; one in twenty 26, thorough 70) events each over a faulty network and disks, with up to 8 (12) forgeries; non-trivial: an event was judged; distinct: by hash of all deliveries, acceptances and faults";

const PATH_RULE: &str = "a run puts a document into 1-4 envelopes on its way over as many nodes, the paths into it rooted at each and stripped again at the end, over a corrupting, losing, duplicating network and nodes which crash; non-trivial: the library followed or composed paths and was judged; distinct: by hash of all deliveries and faults";

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", scenario: hostile::scenario, quick: 180_000, thorough: 4_000_000, fresh: false, rule: HOSTILE_RULE, states: "none besides the library's own code edges", real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C02", scenario: streams::framing, quick: 24_000, thorough: 800_000, fresh: false, rule: STREAM_RULE, states: NODES, real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C03", scenario: streams::lossless, quick: 24_000, thorough: 800_000, fresh: false, rule: STREAM_RULE, states: NODES, real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C04", scenario: codes::canonical_only, quick: 30_000, thorough: 1_000_000, fresh: false, rule: DAMAGE_RULE, states: "(length, domain) of the deliveries", real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C05", scenario: codes::typed_only, quick: 150_000, thorough: 2_000_000, fresh: false, rule: ROUTE_RULE, states: "(reader, first byte delivered) pairs", real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C06", scenario: sign::scenario, quick: 20_000, thorough: 1_000_000, fresh: false, rule: SIGN_RULE, states: "(signature code, transport forms, message size, forged or not)", real: REAL, stubs: STUBS, assumptions: TRUST_KEYS },
    Prop { id: "C07", scenario: saids::data, quick: 50_000, thorough: 2_000_000, fresh: false, rule: SAID_RULE, states: "hashes of the contents received", real: REAL, stubs: STUBS, assumptions: TRUST_DIGESTS },
    Prop { id: "C08", scenario: saids::prefixes, quick: 60_000, thorough: 2_000_000, fresh: false, rule: PREFIX_RULE, states: "(derivation code, size of the event received)", real: REAL, stubs: STUBS, assumptions: TRUST_DIGESTS },
    Prop { id: "C09", scenario: thresholds::scenario, quick: 40_000, thorough: 2_000_000, fresh: false, rule: RULE_RULE, states: "(signatures held, keys, satisfied)", real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C10", scenario: machine::derivation, quick: 8_000, thorough: 1_000_000, fresh: false, rule: SALT_RULE, states: "(wallet, restarts, keys known, stored form)", real: REAL, stubs: STUBS, assumptions: TRUST_ARGON },
    Prop { id: "C11", scenario: machine::entropy, quick: 40_000, thorough: 1_000_000, fresh: true, rule: ENTROPY_RULE, states: "(kind of secret, sequence of entropy source behaviours)", real: REAL, stubs: STUBS, assumptions: TRUST_KEYS },
    Prop { id: "C12", scenario: machine::time, quick: 300_000, thorough: 5_000_000, fresh: false, rule: TIME_RULE, states: "calendar days stamped", real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C13", scenario: threads::scenario, quick: 7_000, thorough: 300_000, fresh: true, rule: THREAD_RULE, states: "distinct interleavings: hash of (point, thread) over all scheduling decisions", real: REAL, stubs: STUBS_T, assumptions: TRUST },
    Prop { id: "C14", scenario: heap::scenario, quick: 300_000, thorough: 4_000_000, fresh: false, rule: HEAP_RULE, states: "(kinds of secret held, secrets known, last call)", real: REAL, stubs: &["entropy (getrandom)", "allocator (the system's, watched)"], assumptions: TRUST },
    Prop { id: "C15", scenario: cost::scenario, quick: 60_000, thorough: 2_000_000, fresh: false, rule: COST_RULE, states: "(log of the size delivered, its first two bytes)", real: REAL, stubs: &["network", "allocator (the system's, measured and limited)"], assumptions: TRUST },
    Prop { id: "C16", scenario: streams::numbers, quick: 20_000, thorough: 1_000_000, fresh: false, rule: STREAM_RULE, states: NODES, real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C17", scenario: streams::messages, quick: 7_000, thorough: 500_000, fresh: false, rule: STREAM_RULE, states: NODES, real: REAL, stubs: STUBS, assumptions: TRUST },
    Prop { id: "C18", scenario: kel::scenario, quick: 4_000, thorough: 500_000, fresh: false, rule: KEL_RULE, states: "hash of every node's progress (up or down, events held, events held back, receipts) after each event", real: REAL, stubs: STUBS, assumptions: TRUST_KEYS },
    Prop { id: "C19", scenario: paths::scenario, quick: 24_000, thorough: 2_000_000, fresh: false, rule: PATH_RULE, states: "(attempts, paths, size of the data) after each hop", real: REAL, stubs: STUBS, assumptions: TRUST },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
