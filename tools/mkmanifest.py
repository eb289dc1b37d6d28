#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that check.py has jobs for."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + "/check.py").read()
ns = {}
exec(re.search(r"class Job:.*?(?=\ndef sh)", src, re.S).group(0), ns)
T = {
 "C01": ("explicit-state enumeration of the real curve code over complete tiny groups", "All pairs of elements and all scalars of groups of 7 to 199 elements, all reachable operation sequences; edge elements and scalars on secp256k1. Trusts the affine reference and the stand-in curve library."),
 "C02": ("exhaustive operation histories of depth two with snapshots of every live value", "Every operation in every argument pattern followed by every other; values compared through their encodings."),
 "C03": ("exhaustive enumeration of points, point sequences and reader segmentations", "All elements of tiny groups, all cuts of every encoding; edge points of secp256k1 with short coordinates."),
 "C04": ("exhaustive enumeration of byte strings and single faults of genuine encodings", "All strings to a length, every truncation, byte change and length field value; allocation measured."),
 "C05": ("stateless model checking of all operation pairs with preemption bound, and happens-before race detection of every pair", "Interleavings at every curve, stream and randomness access up to 1 (thorough 2) preemptions; race detector on free-running pairs."),
 "E01": ("explicit-state exploration of commitment registers over complete tiny groups", "All openings, keys and exponents of a group of 7 elements, all reachable register pairs; edges on secp256k1."),
 "E02": ("exhaustive enumeration of commitment pairs and encodings over tiny groups", "All pairs of commitments for all keys of groups of 7 and 31 elements; edges on secp256k1."),
 "Z01": ("exhaustive enumeration of witnesses, keys and randomness outcomes", "All witnesses, keys and first draws in a group of 7 elements; edge witnesses and draws on secp256k1."),
 "Z02": ("exhaustive search of accepted responses over all statements and first messages, single-fault enumeration", "At most one response accepted per statement and first message in a tiny group; every mutation on secp256k1; challenges extracted and replayed."),
 "Z03": ("exhaustive search for accepted proofs of false statements", "All false refreshments, first messages and responses of a tiny group, acceptance counted; forgeries by guessed challenges on secp256k1."),
 "Z04": ("exhaustive enumeration of randomness outcomes, distribution compared exactly", "All byte outcomes of the nonces in a tiny group; every single bit of the randomness on secp256k1."),
 "H01": ("exhaustive comparison with an independent HKDF over all short inputs", "All strings to 2 bytes, all lengths to 300, every bit of a statement-sized message, for several moduli."),
 "A01": ("exhaustive executions of the resharing protocol over tiny groups under an owned scheduler and randomness", "All n, t and share values within bounds, all subsets of t parties, sequences of resharings."),
 "A02": ("exhaustive crash-subset enumeration of the real protocol", "All n, t, crash points of every party within bounds; values from tiny groups."),
 "A03": ("exhaustive crash-subset enumeration of the real protocol", "All n, t, crash points of every party within bounds; values from tiny groups."),
 "A04": ("exhaustive enumeration of secrets and coefficients over a tiny group on the real protocol", "All coefficients, values and thresholds within bounds."),
 "A05": ("single-fault enumeration over every message of every round of the real protocol", "Every round, sender, receiver and mutation of a message, commitments divided otherwise, openings altered together with their commitments, inconsistent dealers; n up to 3."),
 "A06": ("exhaustive enumeration of Diffie-Hellman candidates and message faults on the real protocol", "All exponent pairs of tiny groups with all draws (n=2) or two of them (more); every inconsistent opening; large committees."),
 "A07": ("exhaustive enumeration of contributions and message faults on the real protocol", "All contributions of tiny groups; every mutation of commitment and opening."),
 "A08": ("exhaustive enumeration of share values on the real multiplication protocol", "All share values of a tiny group for 2 parties, edges for more and on secp256k1."),
 "A09": ("exhaustive comparison of views over all randomness outcomes of a tiny group", "Views of every coalition below t counted for every contribution."),
 "A10": ("exhaustive enumeration of thresholds with communication recorded", "All 65536 thresholds for up to 6 parties, in resharing and presigning; sequences of refused and accepted ones."),
 "A11": ("exhaustive enumeration of randomness outcomes of the real multiplication over a tiny group, distributions of replies compared", "All outcomes of each draw a reply depends on for all shares of a tiny group; rank of the masks over two multiplications; range of masks on secp256k1."),
 "S01": ("stateless model checking of the real server over a controlled network", "All orders of network events up to a deviation bound, all payload shapes."),
 "S02": ("fault enumeration at every network operation of the real server", "Every fault, lasting or passing, at every operation of every link in a round, every refusing check; several rounds."),
 "S03": ("exhaustive frame mutation against the real server", "Every header value class, truncation and garbage on every link."),
 "S04": ("stateless model checking of the start-up of the real server", "All orders of dials, accepts and introductions with failures up to a deviation bound."),
 "S05": ("stateless model checking of rounds after failed rounds, with race detection", "Every failure, lasting or passing, followed by further rounds, all event orders up to a deviation bound."),
 "T01": ("exhaustive execution of presigning and signing over tiny groups", "Observed signatures compared with the secrets of the presignature."),
 "T02": ("explicit-state exploration of presign, sign and failure histories", "All histories to a depth; nonces observed."),
 "T03": ("single-fault enumeration of messages in every round of every protocol", "Every mutation of every message of a peer; openings also with the commitment made to match; memory measured."),
 "T04": ("exhaustive execution of initialisation and presigning with every published commitment attributed to a key", "All n and t within bounds."),
 "T05": ("exhaustive enumeration of the secrets of a presignature on the real protocol, transcripts compared", "All values of two or three of the secrets of a tiny group, every failing round; all joint values of the four secrets; rank of draws over several presignatures; messages searched for secrets on secp256k1."),
 "X01": ("stateless model checking of whole sessions over the real server with enumerated failures", "Every failure at every network operation of a session for small committees, any set of parties leaving in any round of signing for up to 5 parties, failures followed by out-of-step calls on the real curve."),
 "M01": ("enumeration of committee sizes and key component lengths on the real generator and loader", "Files written by the generator, loaded by the node's own parser."),
 "M02": ("fault enumeration of configuration files and options on the real node", "Every cut and 15 replacements of every byte of both files against a description of the format, every pair of option and file classes."),
 "M03": ("exhaustive enumeration of sessions of the node's process and of the failures of a peer in each of their rounds", "All committee sizes, parties, thresholds and numbers of signatures within bounds; every round of a session with a peer that sends garbage or goes away."),
 "M04": ("fault enumeration at every key and every output file of the real key generator", "Every key that fails, every one or two files that can not be written in three ways, command lines times address files, every earlier committee; committees up to 4 (6)."),
}
checks = []
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for p in props:
    if p in ns["JOBS"]:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]})
na = [{"property": p, "reason": "check under construction"} for p in props if p not in ns["JOBS"]]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness builds the unmodified packages from /verif/harness through a replace directive and an overlay; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
