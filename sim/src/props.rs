//! Registry of the claimed properties.
use crate::*;

const LIB: &[&str] = &["the whole iota_mam library as built from /repo (release profile, debug assertions and overflow checks on)"];
const NODE: &[&str] = &["scheduling of sessions and process crashes (simulated)"];
const DISK: &[&str] = &["process scheduling, crashes and restarts (simulated)", "stable storage (simulated)", "secrets and nonces (drawn from the seed)"];
const NET: &[&str] = &["network, clock and scheduling of nodes (simulated)", "stable storage of nodes (simulated)", "message identifiers, secrets and nonces (drawn from the seed)"];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "D01",
        run: sponge::d01,
        quick: 100000,
        thorough_mult: 15,
        directed: &[],
        rule: "Sessions with random operation lists; the scheduler picks which session performs its next fragment and how long that fragment is (biased to block and word boundaries, empty fragments included), in which form (in place, out of place, container), and when a session crashes and is replayed. Oracle: a replica doing each operation in one call. Then the one-call hash functions, over data in pieces and chained in place, against absorb, commit, squeeze.",
        state_measure: "(operation kind, fragment start, position in the sponge block) triples",
        real: LIB,
        stub: NODE,
        assumptions: &["The whole-call form is the reference; what it computes is C08's business."],
    },
    Prop {
        id: "D02",
        run: sponge::d02,
        quick: 200000,
        thorough_mult: 15,
        directed: &[],
        rule: "Two peers process one history, one encrypting and one decrypting; a channel fault (trit flipped in absorbed or masked data, key trit differing, commit boundary missed, tag trit flipped) strikes one peer at a random operation. Oracle: equality of outputs and tag comparisons before the fault, inequality after the first commit behind it.",
        state_measure: "(block position at the fault, operation index, effectiveness) tuples",
        real: LIB,
        stub: NODE,
        assumptions: &["Two different histories giving equal tags of 81 trits or more (probability 3^-81) do not occur."],
    },
    Prop {
        id: "D03",
        run: sponge::d03,
        quick: 150000,
        thorough_mult: 15,
        directed: &[&[1], &[0]],
        rule: "A sponge with a random history is saved at committed points, dropped in a crash and restored, several generations and copies; all continue with the same operations. Oracle: the uninterrupted original.",
        state_measure: "hash of (history length, generation, copies, operations after the restore)",
        real: LIB,
        stub: NODE,
        assumptions: &["Known finding KF1: a continuation that reads outer trits before a whole block has been absorbed is compared with the exact model of that defect."],
    },
    Prop {
        id: "D04",
        run: sponge::d04,
        quick: 100000,
        thorough_mult: 15,
        directed: &[],
        rule: "A pool of sponges; the scheduler picks fork, fork-over, join, drop or any operation on any member. Oracle: every member's recorded history replayed on an isolated sponge.",
        state_measure: "hash of (pool size, last operations)",
        real: LIB,
        stub: NODE,
        assumptions: &["81-trit collisions do not occur."],
    },
    Prop {
        id: "D05",
        run: sponge::d05,
        quick: 150000,
        thorough_mult: 15,
        directed: &[],
        rule: "Several sessions of hash sponges absorb, finalise, squeeze and reset in random order; the scheduler picks the session and cuts its data into fragments (biased to block boundaries, empty fragments included), and when a session crashes and does its work again on a new or a reset sponge. Oracle: an independent trit-by-trit Troika sponge.",
        state_measure: "(position in the block, fragment length, operation kind) triples",
        real: LIB,
        stub: NODE,
        assumptions: &["The independent permutation reproduces the published Troika vectors ('mamsim selftest')."],
    },
    Prop {
        id: "S01",
        run: signer::s01,
        quick: 1600,
        thorough_mult: 15,
        directed: &[],
        rule: "Whole lifetimes of keys: real one-time keys on small heights, single leaves of large heights, symbolic node values for heights to 11; restarts from stored records at random points. Oracle: recovery of the published public key from each signature, both variants compared, independently computed authentication paths.",
        state_measure: "(height, leaf) pairs signed with",
        real: LIB,
        stub: NODE,
        assumptions: &[],
    },
    Prop {
        id: "S02",
        run: signer::s02,
        quick: 1200,
        thorough_mult: 15,
        directed: &[],
        rule: "A signer process that records before it releases, with crash points while idle, after signing, before or during the record write (torn write on one of two alternately written slots) and before release. Oracle: history of released leaf numbers and one-time keys: no repetition, steps of one, exhaustion is final.",
        state_measure: "(height, leaf at crash, variant) triples",
        real: LIB,
        stub: DISK,
        assumptions: &["The application records the advanced state before releasing a signature, as the property presupposes."],
    },
    Prop {
        id: "S03",
        run: signer::s03,
        quick: 6000,
        thorough_mult: 15,
        directed: &[],
        rule: "Trees stored at random points and loaded by a new process, continued to the end beside the uninterrupted original; damaged records (truncated, extended, mixed-up, altered header, lost nodes). Oracle: equality with the original; a damaged record whose length fits no genuine record must be refused.",
        state_measure: "(height, leaf at save, variant) triples",
        real: LIB,
        stub: DISK,
        assumptions: &["Damage that keeps the length of a genuine record cannot be noticed."],
    },
    Prop {
        id: "S04",
        run: signer::s04,
        quick: 500,
        thorough_mult: 15,
        directed: &[],
        rule: "A forger holding released signatures alters, truncates, extends, recombines and advances one-time chains, and presents the result under right and wrong hash values and keys. Oracle: nothing but the untouched triple verifies; recovery consumes the exact length.",
        state_measure: "(forgery kind, height, leaf) triples",
        real: LIB,
        stub: DISK,
        assumptions: &["One-way chains cannot be inverted; hash collisions do not occur."],
    },
    Prop {
        id: "K01",
        run: kem::k01,
        quick: 8000,
        thorough_mult: 15,
        directed: &[],
        rule: "Two nodes with a common sponge history; capsules sent over a channel that alters single coefficients, digits, length, or is read with another key or history; malformed public keys injected. Oracle: recovered key and equal sponge states, or a reported failure.",
        state_measure: "(fault kind, round, history length) triples",
        real: LIB,
        stub: DISK,
        assumptions: &[],
    },
    Prop {
        id: "K02",
        run: kem::k02,
        quick: 5000,
        thorough_mult: 15,
        directed: &[&[7]],
        rule: "Derivations (random strings, one-time and Merkle keys, key pairs, public-key sets) performed, the node restarted, performed again on other nodes, with nonce and output split into pieces; all values of a run kept in a table. Oracle: equality with the first result, pairwise difference of others.",
        state_measure: "(derivation kind, nonce) pairs",
        real: LIB,
        stub: DISK,
        assumptions: &["Different inputs colliding by chance on 81 or more trits does not happen.", "Nonces of one run have one size (KF2)."],
    },
    Prop {
        id: "K03",
        run: kem::k03,
        quick: 100000,
        thorough_mult: 15,
        directed: &[],
        rule: "Counters of random width, embedded between other trits, incremented along whole cycles or long segments around carries, saved and restored at random points. Oracle: arithmetic on the values (base 3 successor), set of visited values, wrap report.",
        state_measure: "(width, offset, counter value) triples",
        real: LIB,
        stub: DISK,
        assumptions: &[],
    },
    Prop {
        id: "W01",
        run: prog::w01,
        quick: 8000,
        thorough_mult: 15,
        directed: &[],
        rule: "A random field program (all commands, types and value ranges) written by one node and read by others: with the same program, with one trit of the wire flipped anywhere, truncated, and with a program or environment differing in one respect. Oracle: values, predicted length, end state; rejection wherever a tag follows.",
        state_measure: "(change, position, length) of altered wires and (variant, program shape) of differing readers",
        real: LIB,
        stub: NODE,
        assumptions: &["Tags of 81 trits or more never match by chance; shorter ones are not judged."],
    },
    Prop {
        id: "M01",
        run: arena::m01,
        quick: 8000,
        thorough_mult: 15,
        directed: &[],
        rule: "Several sessions encode, encrypt, sign, decode and compare into and out of regions of one buffer laid out by the scheduler (adjacent, gapped, at the buffer ends, in place), reached through differently based slices. Oracle: a shadow buffer computed with private buffers.",
        state_measure: "(operation kind, region start, size) triples",
        real: LIB,
        stub: NODE,
        assumptions: &["Partly overlapping source and destination are outside the property."],
    },
    Prop {
        id: "C01",
        run: world::c01,
        quick: 900,
        thorough_mult: 15,
        directed: &[],
        rule: "Channel author, subscribers, an eavesdropper and a forger publish and process messages through a simulated network with loss, duplication, reordering, delay, partitions, stalls, crashes and restarts; afterwards faults stop and every entitled receiver must obtain every message within a bounded number of resynchronisation rounds. Oracle: the published content, announced sizes, equality of sender and receiver states.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &[],
    },
    Prop {
        id: "C02",
        run: world::c02,
        quick: 1000,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01 with a network that alters messages: single trits anywhere, pairs, runs, truncation, extension, pieces dropped, repeated, swapped or spliced in from other messages, re-encoded fields; the intact copy follows. Oracle: no acceptance (for unsigned keyloads: no genuine state), intact copy still accepted.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &["81-trit tags never match by chance."],
    },
    Prop {
        id: "C03",
        run: world::c03,
        quick: 450,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01 with a forger that sees all traffic, owns signing and encryption keys, may be a recipient, and publishes announcements, key changes, keyloads and signed and tagged packets of its own or composed from genuine signatures, tags and proofs. Oracle: nothing of it is accepted.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &[],
    },
    Prop {
        id: "C04",
        run: world::c04,
        quick: 850,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01 with genuine messages re-presented under another instance, identifier, type or link, or with links resolved to other states. Oracle: rejection; for unsigned keyloads: never the genuine state.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &[],
    },
    Prop {
        id: "C05",
        run: world::c05,
        quick: 1400,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01; keyloads with recipient lists in all orders, wrong keys under listed identifiers, outsiders; an eavesdropper with all public knowledge tries to strip session keys and masked payloads. Oracle: recipients get the session state, others KeyNotFound or another state; wire trits share nothing with secrets and change with the session key.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &["Secrecy is tested against a fixed repertoire of eavesdropper computations, not proved."],
    },
    Prop {
        id: "C07",
        run: world::c07,
        quick: 1200,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01 centred on subscriptions: subscribers join and leave, the owner addresses keyloads to them; unsubscriptions forged by other parties, from other subscriptions, or altered. Oracle: the subscriber's exact key, reachability, rejection of forgeries, secrecy of the key against public computations.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &["Secrecy is tested against a fixed repertoire of eavesdropper computations, not proved."],
    },
    Prop {
        id: "C08",
        run: world::c08,
        quick: 1000,
        thorough_mult: 15,
        directed: &[],
        rule: "World of C01 as a mixed deployment: every message and random field program is also produced and decoded by an independent implementation of the format (own permutation, sponge, signatures, key encapsulation). Oracle: equality trit for trit, equal decoded content, equal states.",
        state_measure: "hash of (kind, link kind, receiver's role, leaf, payload sizes) of judged messages",
        real: LIB,
        stub: NET,
        assumptions: &["The reference was written from the format's description and this code's layout; a misreading common to both would not be noticed."],
    },
    Prop {
        id: "C06",
        run: fuzz::c06,
        quick: 4000,
        thorough_mult: 15,
        directed: &[],
        rule: "A victim process decodes hostile input held between unreadable pages: genuine messages truncated, overwritten, with lying sizes and counts, dropped and repeated pieces, garbage tails, pure garbage, through all message decoders, random field programs and signature parsing. Oracle: value or error without panic, fault, over-read (guard pages and a second decode with other trits behind the buffer), hang or allocation out of proportion.",
        state_measure: "(decoder, mutation, result) tuples",
        real: LIB,
        stub: NET,
        assumptions: &["Decoding is done with buffers of at most about 60000 trits."],
    },
];
