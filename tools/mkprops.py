#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CH="src/app/channel/msg/"
ALLMSG=[CH+f for f in ("announce.rs","change_key.rs","keyload.rs","signed_packet.rs","tagged_packet.rs","subscribe.rs","unsubscribe.rs")]
HOOK="public constructors for the application-instance and message identifiers (crate-private today), cfg(iota_mam_sim)"
p("C01","Intact channel messages decode to exactly what was published",
 "Whenever a receiver entitled to a message processes an intact copy of it (announcement, key change, keyload, signed packet, tagged packet, subscription, unsubscription) after the message it links to, decoding succeeds, yields exactly the published content, consumes exactly the size announced before encoding, and leaves sender and receiver with the same sponge state for later messages to link to. A copy that arrives before its base is reported as having an unknown link and decodes once the base has arrived. This holds under loss, duplication, reordering, delay, partitions and node restarts that resynchronise from the network.",
 ["schedules","histories","inputs","crash_points","fault_sequences"],
 "every conversation of a channel owner and several subscribers, every payload and recipient list, every delivery order and crash point",
 "Each unit test wraps and unwraps one message with fixed data in program order, with one or two payload sizes and one recipient set; no test has more than one linked hop, more than one receiver, out-of-order arrival or a restart.",
 ALLMSG+["src/app/core/msg/header.rs","src/pb3/cmd/join.rs","src/spongos.rs"],
 [("wrap/unwrap of every message mirror each other on the sponge",CH),("sizeof functions",CH),("join of the linked sponge state","src/pb3/cmd/join.rs")],
 [("sponge state per message id","what later messages join","held by the application")],["unwrap result of every message","remaining size of the output buffer","fingerprint squeezed from a copy of both final states"],HOOK)
p("C02","A message altered in transit is never accepted",
 "If any part of an authenticated message is changed in transit (trits altered, truncated, extended, or spliced from other messages), no receiver accepts it as a valid message, whatever part was hit. A keyload altered anywhere outside the entries of other recipients never leaves a receiver with the session state of the genuine one, so messages linked to the genuine keyload are never accepted with different content. A rejected copy never prevents the intact copy from being accepted.",
 ["inputs","histories","fault_sequences"],
 "every message kind, every altered position and combination of alterations, every history the altered message is linked to",
 "Tests of rejection flip nothing or a single value; every trit position of multi-kilotrit messages in every linked history cannot be listed in a test.",
 ALLMSG+["src/pb3/cmd/mac.rs","src/pb3/cmd/mssig.rs","src/mss/mss.rs","src/wots.rs","src/spongos.rs"],
 [("MAC over the sponge","src/pb3/cmd/mac.rs"),("signature over a squeezed hash","src/pb3/cmd/mssig.rs"),("every field is absorbed or masked before the tag",CH)],None,["unwrap result for altered bodies"],HOOK)
p("C03","Only trusted key holders can publish as the channel owner",
 "A packet is accepted as signed by the owner only if it was signed with the announced key or with a key reached from it by a chain of key changes, each of which carries both a valid signature of the previously trusted key and a proof of possession of the new key. A forger who sees all traffic, owns signing keys of its own and may be a legitimate recipient cannot get an announcement, key change or signed packet accepted, and an outsider cannot get a tagged packet accepted.",
 ["histories","inputs","schedules"],
 "every history of genuine messages and key changes, every forgery built from observed traffic and the forger's own keys",
 "The change-key test covers one honest rotation; no test plays a forger, so nothing exercises the refusal side of the trust chain.",
 [CH+"announce.rs",CH+"change_key.rs",CH+"signed_packet.rs",CH+"tagged_packet.rs","src/pb3/cmd/mssig.rs","src/mss/mss.rs"],
 [("both signatures of a key change are checked",CH+"change_key.rs"),("announced key must match the signing key",CH+"announce.rs"),("recovered key is compared with the expected key","src/pb3/cmd/mssig.rs")],None,["verdict of every honest node on every forged message"],HOOK)
p("C04","A message is only valid in the context it was published in",
 "A genuine message body is accepted only under the application instance, message identifier, message type and linked base message for which it was produced. Re-presenting it under another instance or identifier, relabelling its type, or resolving its link to any other message's state is always rejected; an unsigned keyload, which carries no tag, never yields the session state of the genuine one when re-presented this way.",
 ["histories","inputs"],
 "every genuine message of a history re-presented under every other instance, identifier, type and base",
 "Tests always decode in the context they encoded in; the header test checks one matching pair.",
 ["src/app/core/msg/header.rs","src/app/core/mod.rs","src/pb3/cmd/join.rs","src/spongos.rs"]+ALLMSG,
 [("instance and identifier are absorbed externally","src/app/core/msg/header.rs"),("linked state is joined","src/pb3/cmd/join.rs")],None,["verdict on re-contextualised bodies"],HOOK)
p("C05","Session keys and masked payloads reach only the intended recipients",
 "A keyload gives its session state to every listed recipient (by pre-shared key or by public key, wherever it stands in the list) and to nobody else: a node holding none of the listed keys is told that no key was found, and one holding a wrong key under a listed identifier never obtains the session state. Masked payloads published under a session never appear on the wire in clear and change unpredictably with the session key, and a node without the session can neither accept nor read them.",
 ["configurations","histories","inputs"],
 "every recipient list (size, order, mixture of key kinds), every eavesdropper holding any other keys, every packet linked under the session",
 "The keyload test uses one list with one pre-shared key and five public keys and never checks a non-recipient or the wire contents.",
 [CH+"keyload.rs",CH+"signed_packet.rs",CH+"tagged_packet.rs","src/ntru.rs","src/pb3/cmd/ntrukem.rs","src/pb3/cmd/mask.rs","src/spongos.rs"],
 [("per-recipient fork of the sponge",CH+"keyload.rs"),("session key absorbed into the main state",CH+"keyload.rs"),("masking by sponge encryption","src/pb3/cmd/mask.rs")],None,["verdict and state of non-recipients","wire image of masked payloads"],HOOK)
p("C06","No received input can crash, hang or over-read a decoder",
 "Whatever trits arrive (garbage, truncated at any point, genuine messages with altered sizes and counts, input cut off by the buffer end), every decoder returns either a value or an error: it never panics, never loops beyond work proportional to the input, never reads outside the received buffer and never allocates memory out of proportion to it.",
 ["inputs","fault_sequences"],
 "every trit string presented to every message and field decoder, with any keys and link table on the receiving side",
 "Tests decode only what they encoded; truncation and lying length fields are never presented.",
 ALLMSG+["src/app/core/msg/header.rs","src/pb3/typ/size.rs","src/pb3/typ/trint.rs","src/pb3/typ/trytes.rs","src/mss/mss.rs","src/ntru.rs","src/trits/slice.rs"],
 [("end-of-input guards","src/pb3/err.rs guard(.., Err::Eof)"),("size validation","src/pb3/typ/size.rs")],None,["return value, panic, allocation high-water mark, result independence of memory around the buffer"],HOOK)
p("C07","Subscriptions register the right key and only their holder can end them",
 "The owner processing an intact subscription obtains exactly the subscriber's public key, and a keyload addressed to that key reaches that subscriber. An unsubscription is accepted only if it was produced from the state of the very subscription it links to; one produced by any other party, from another subscription or with altered contents is rejected; a subscription that carries no usable key is refused and registers nobody. Nobody but the owner can read the subscriber's key from the subscription.",
 ["histories","schedules","inputs"],
 "every interleaving of subscriptions, unsubscriptions, duplicates and forgeries from several subscribers",
 "The subscription test performs one subscribe and one unsubscribe in order with one subscriber.",
 [CH+"subscribe.rs",CH+"unsubscribe.rs",CH+"keyload.rs","src/ntru.rs","src/pb3/typ/ntrupk.rs","src/pb3/cmd/join.rs"],
 [("unsubscribe joins the state of the subscription",CH+"unsubscribe.rs"),("subscriber key masked under an encapsulated key",CH+"subscribe.rs")],None,["owner's subscriber table","subscriber's ability to open later keyloads"],HOOK)
p("C08","Encoded messages are interoperable with the published wire format",
 "Every message encoded by this implementation is, trit for trit, the one an independent implementation of the documented format (sponge, integer and size encodings, one-time and Merkle signatures, key encapsulation, message layouts) produces from the same keys and content. In a mixed deployment either implementation decodes the other's messages to the same content, messages of another protocol version are refused as unsupported, and so are messages whose fields the format does not allow (an unknown alternative, an unusable key), even when a legitimate author issued them.",
 ["inputs","histories","configurations"],
 "every message of every conversation, with nodes of both implementations in any role",
 "Round-trip tests pass whenever encoder and decoder change together; only the bare permutation has known-answer tests.",
 ALLMSG+["src/app/core/msg/header.rs","src/pb3","src/spongos.rs","src/prng.rs","src/wots.rs","src/mss/mss.rs","src/ntru.rs","src/troika.rs"],
 [("PB3 field encodings","src/pb3"),("key derivation","src/prng.rs")],None,["encoded bodies","decoded content on both implementations"],HOOK)
p("S01","Every signature of a key's lifetime verifies under its one public key",
 "For every tree height, both tree variants and every leaf from first to last, a signature over any hash value verifies under the public key published at generation; the public key never changes over the key's life, including after the last signature. Both tree variants generated from the same secret publish the same public key and produce identical signatures. A one-time key used on its own likewise verifies what it signed.",
 ["histories","inputs","configurations"],
 "every height, leaf number and hash value, for both tree variants, at every point of the key's life",
 "Tests sign one constant hash with heights 0 and 1, and traverse toy trees up to height 5 once.",
 ["src/mss/mss.rs","src/mss/mt.rs","src/mss/mtcomplete.rs","src/mss/mttraversal.rs","src/wots.rs"],
 [("authentication path per leaf","src/mss/mtcomplete.rs, src/mss/mttraversal.rs"),("checksum of the one-time signature","src/wots.rs"),("leaf number encoding","src/mss/mss.rs")],None,["verify and recover on every signature"],None)
p("S02","A one-time key is never used twice, across crashes and restarts",
 "A signer that records its advanced state before releasing a signature never releases two signatures made with the same one-time key, wherever it crashes and however often it restarts; the leaf number only moves forward by one. When all keys are used the signer reports exhaustion and refuses to sign, and stays exhausted after a restart.",
 ["crash_points","histories","schedules"],
 "every placement of crashes around signing, advancing, storing and releasing, for every height and tree variant",
 "Tests traverse once without crash; reuse across restart and refusal after exhaustion are never exercised.",
 ["src/mss/mss.rs","src/mss/mtcomplete.rs","src/mss/mttraversal.rs"],
 [("leaf counter","next() of the tree variants"),("refusal when no key is left","src/mss/mss.rs")],[("leaf number","index of the next one-time key","tree variants, stored record")],["leaf number and one-time public key of every released signature"],None)
p("S03","A stored Merkle tree resumes exactly, and damaged records are refused",
 "A tree stored at any point of its life and loaded in a new process continues exactly as the original would have: same root, same leaf number, same remaining authentication paths, same later records. A record whose node list was cut short, extended, or belongs to another height or position such that its length does not fit is refused with an error, never a crash.",
 ["crash_points","histories","fault_sequences"],
 "every height and position at which the tree is stored, any number of store and load generations, torn and mixed records",
 "Tests compare a loaded tree for equality right after storing, for heights up to 5, and never load damaged records or continue from a loaded tree.",
 ["src/mss/mtcomplete.rs","src/mss/mttraversal.rs","src/mss/mt.rs"],
 [("store/load","src/mss/mtcomplete.rs, src/mss/mttraversal.rs")],[("node list","cached tree nodes in a variant-specific order","stored record")],["apath, root and store of resumed trees"],None)
p("S04","A signature is accepted only for its own hash value and key",
 "Verification succeeds for no other combination than the signed hash value, the untouched signature and the signer's own public key: altered hash, altered, truncated or extended signature, altered leaf number or height, authentication path of another leaf, one-time chains advanced by a forger to fit another hash, or another key's public key all fail, and recovery never returns the signer's key for an altered hash or signature and reports exactly how many trits it consumed. The same holds for one-time keys used on their own.",
 ["inputs","histories","fault_sequences"],
 "every alteration and recombination of signatures observed from several keys",
 "The tests contain no negative verification at all (the source carries a TODO to that effect).",
 ["src/mss/mss.rs","src/wots.rs"],
 [("one-time signature checksum","src/wots.rs"),("path folding driven by the leaf number","src/mss/mss.rs"),("full-length key comparison","src/mss/mss.rs")],None,["verify/recover results"],None)
p("D01","Sponge results do not depend on how data is split into calls",
 "For any sequence of absorb, squeeze, encrypt, decrypt and commit operations, splitting the data of any operation into consecutive pieces of any sizes gives the same outputs and the same later behaviour as one call, however operations of several sponges are interleaved, and in-place, out-of-place and container forms of an operation agree. The one-call hash of one or several pieces of data equals absorbing them, committing and squeezing.",
 ["schedules","inputs","histories"],
 "every operation sequence, every fragmentation of its data (including empty pieces and pieces ending exactly at block boundaries), every interleaving of sessions",
 "Tests process each field in one call with equal sizes for all fields, from a freshly committed state.",
 ["src/spongos.rs","src/trits/slice.rs","src/trits/b1t1.rs"],
 [("outer position bookkeeping","src/spongos.rs")],[("outer position","offset in the current block","src/spongos.rs")],["outputs and state fingerprints"],None)
p("D02","Sponge peers stay in lockstep exactly while they process the same data",
 "Two sponges that performed the same operation sequence, one encrypting and the other decrypting, always recover the plaintext and agree on every later output and tag comparison. As soon as one trit of absorbed or masked data, one key or one commit boundary (81 trits or more before the end of its block) differs between them, every tag of sufficient length squeezed after the next commit differs and its comparison fails, wherever the difference lies; and a comparison fails when any single trit of the presented tag is altered.",
 ["histories","inputs","fault_sequences"],
 "every operation sequence of two peers, every single or multiple transmission fault at any position",
 "Tests check agreement for one fixed sequence and never a disagreement.",
 ["src/spongos.rs","src/troika.rs","src/trits/slice.rs"],
 [("duplex overwrite mode","src/spongos.rs"),("full-length comparison","src/spongos.rs squeeze_eq")],None,["decrypted data, squeezed tags, comparisons"],None)
p("D03","A sponge saved after a commit continues identically when restored",
 "A committed sponge saved, dropped in a crash and restored later, on any node and any number of times, behaves in every later operation exactly like one that was never interrupted. Saving does not disturb the sponge, and restoring the same record twice gives two equal, independent sponges.",
 ["crash_points","histories"],
 "every committed point of every operation sequence at which a crash happens, every continuation",
 "The one test of saving continues with a single absorb longer than a block and a commit, which overwrites everything the record does not contain.",
 ["src/spongos.rs","src/troika.rs"],
 [("inner state serialisation","src/spongos.rs to_inner/from_inner")],[("inner part of the state","the only part saved","src/spongos.rs")],["outputs after restore versus uninterrupted run"],None)
p("D04","Forked sponges are independent and joining affects only the joiner's data",
 "A fork behaves exactly like the original would have from the fork point, and no later operation on original or fork influences the other, in any interleaving. Joining makes the joiner depend on the joinee's entire history and on nothing else, gives equal results for equal inputs, and advances the joinee only by the squeezed block.",
 ["schedules","histories"],
 "every tree of forks and joins and every interleaving of operations on its members",
 "No test forks or joins explicitly; only keyload uses both, in one order.",
 ["src/spongos.rs",CH+"keyload.rs"],
 [("clone of both state parts","src/spongos.rs fork, fork_at"),("join","src/spongos.rs join")],None,["outputs of every sponge versus a reference"],None)
p("D05","Digests of the hash sponge depend on the data alone",
 "For any history of absorb, finalize, squeeze and reset on a hash sponge (TroikaSponge), splitting input or output into consecutive pieces of any sizes gives the same trits as one call, sponges used side by side do not influence each other, and a sponge that was reset behaves like a new one whatever it did before. The digests are those of the published Troika hash function.",
 ["schedules","inputs","histories"],
 "every history of operations, every fragmentation of the data (including empty pieces and pieces ending at block boundaries), every interleaving of sponges",
 "Tests hash a few inputs in one call each and never reset or interleave sponges.",
 ["src/troika.rs"],
 [("block bookkeeping of the hash sponge","src/troika.rs TroikaSponge")],[("index","offset in the current block","src/troika.rs")],["squeezed trits"],None)
p("W01","Any field program reads back what was written, and only that",
 "For every sequence of field commands (absorb, mask, tag, join, sign, encapsulate, fork, commit) over all field types and their whole value ranges, reading with the same sequence returns the written values, consumes exactly the predicted number of trits and ends in the writer's sponge state. A size is read only from its one shortest encoding. If a tag follows, any change of a transmitted trit makes the read fail, and so does any reader that absorbs what the writer masked or masks what the writer absorbed, omits or adds a commit, or uses other external data, links or keys.",
 ["programs","inputs","fault_sequences"],
 "every command program over every value, every damaged position",
 "Each field type is tested alone with a few values, always on a fresh sponge.",
 ["src/pb3/cmd","src/pb3/typ"],
 [("wrap and unwrap of each field type","src/pb3/typ"),("exact size functions","src/pb3/typ")],None,["decoded values, remaining buffer, state fingerprints"],None)
p("K01","Encapsulated keys reach the right holder intact or are rejected",
 "A key encapsulated to a public key, under any sponge history shared by both sides, is recovered exactly by the matching private key, leaving both sponges in the same state. With any other private key, a different sponge history, or a capsule altered in any coefficient, decapsulation reports failure. Public keys that are malformed or not usable are refused when received, and accepted keys work.",
 ["inputs","histories","fault_sequences"],
 "every key pair, session key, nonce, shared history and capsule damage",
 "Tests encapsulate once per fixed key pair and never check a failure.",
 ["src/ntru.rs","src/poly.rs","src/pb3/cmd/ntrukem.rs","src/pb3/typ/ntrupk.rs"],
 [("re-encryption style check of the recovered randomness","src/ntru.rs decr_r"),("public key validation","src/ntru.rs pk_from_trits")],None,["decapsulation result, key, sponge fingerprints"],None)
p("K02","Keys are reproducible from their secret and unique per nonce",
 "Anything derived from a generator secret and nonce (random strings, one-time and Merkle keys, key pairs) is reproduced exactly after a restart or on another node from the same secret and nonce, terminates for every nonce, and does not depend on how the nonce or the output is split into pieces. Different secrets or different nonces never yield the same random string, one-time key or key pair.",
 ["histories","inputs","crash_points"],
 "every secret and nonce (of any length), any order of derivations, any restart in between",
 "Tests derive each key once from one or two nonces.",
 ["src/prng.rs","src/ntru.rs","src/wots.rs","src/mss/mss.rs","src/trits/slice.rs"],
 [("sponge keyed with the secret and the nonces","src/prng.rs"),("retry counter of key pair generation","src/ntru.rs gen_r")],None,["derived values"],None)
p("K03","The nonce counter enumerates all values once and reports wrap-around",
 "Repeatedly incrementing a trit counter of any width, from any starting value, through any number of save and restore cycles, visits pairwise different values until all have been used, each exactly once; the increment that wraps to all zeros, and no other, reports failure. Neighbouring trits are never touched.",
 ["histories","crash_points"],
 "every width and starting value, every number of increments, every crash point between increment and use",
 "No test increments a counter more than five times or looks at the values.",
 ["src/trits/slice.rs","src/ntru.rs"],
 [("increment with carry","src/trits/slice.rs inc")],[("counter","trits of a nonce","caller's container")],["counter values and return value"],None)
p("M01","Encoding and decoding write only to their own part of shared buffers",
 "When several sessions encode, encrypt, sign and decode into and out of adjacent or overlapping-free regions of one buffer, in any interleaving, each region ends with exactly what the session would have produced in a private buffer, inputs are unchanged, and trits outside the destination regions keep their values. In-place operation is used only when source and destination are the same position.",
 ["schedules","inputs"],
 "every layout of regions in a shared buffer and every interleaving of the sessions' operations",
 "Tests give every operation its own container starting at offset zero.",
 ["src/trits/slice.rs","src/trits/b1t1.rs","src/spongos.rs","src/wots.rs","src/mss/mss.rs","src/ntru.rs"],
 [("slice views with offset and length","src/trits/slice.rs"),("same-position test","src/trits/slice.rs is_same")],None,["buffer contents outside and inside regions"],None)
p("N01","The permutation equals the Troika specification",
 "For every 729-trit state the permutation equals the published Troika permutation.",["inputs"],"every input state","known-answer tests cover a few inputs",
 ["src/troika.rs"],[("bit-sliced rounds","src/troika.rs")])
p("N02","Polynomial arithmetic is correct",
 "Forward and inverse transforms are inverse to each other and products agree with schoolbook multiplication modulo the ring, for all polynomials.",["inputs"],"every polynomial","tests use a few polynomials",
 ["src/poly.rs"],[("number theoretic transform","src/poly.rs")])
p("N03","Text and integer conversions are exact inverses",
 "Tryte text and integer conversions are inverse to each other over their whole ranges.",["inputs"],"every value","tests sample values",
 ["src/trits/util.rs","src/trits/b1t1.rs","src/trits/trits.rs"],[("balanced conversion","src/trits/util.rs")])
p("N04","Secret comparisons take time independent of the data",
 "Comparing a tag or recovered secret takes time independent of where the first difference lies.",["inputs"],"every pair of values","timing is not tested",
 ["src/spongos.rs","src/trits/b1t1.rs"],[("comparison","src/spongos.rs squeeze_eq")])
for x in P: print(json.dumps(x))
