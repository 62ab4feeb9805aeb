HOOKS = ["41fd0231f3ce5b0211d6d638b9430ec6488a3cfe"]
NOTES = "Every check is one sub-command of the harness crate; see DESIGN.md."
NA = {}
E = "exploration"
SAMPLED = " Sampled, not exhaustive: seeded, fixed number of cases."
CLAIMS = {
 "C01": ("property-based testing: filenames built from a model, field-by-field oracle, round trip, mutation against an independent recognizer", E, "No counterexample in the generated filenames and mutations." + SAMPLED),
 "C02": ("property-based testing: equivalence/order/hash laws against an independent PEP 503 normalizer", E, "Laws checked on generated pairs and triples of spellings." + SAMPLED),
 "C03": ("property-based testing against a reference model of PEP 440, plus dense neighbourhood search around specifier bounds", E, "Agreement with a reference model written from the PEP (itself cross-checked against pypa/packaging)." + SAMPLED),
 "C04": ("property-based testing: grammar-based generation with a structural oracle, round trip, mutation against an independent PEP 508 recognizer", E, "Agreement with a model of the PEP 508 grammar." + SAMPLED),
 "C05": ("property-based testing against a reference evaluator for PEP 508 markers", E, "Agreement with a reference evaluator over generated markers, environments and extras." + SAMPLED),
 "C06": ("property-based testing: documents rendered from a model, structural oracle, single-defect injection", E, "Agreement with the model each document was rendered from." + SAMPLED),
 "C07": ("property-based testing: documents rendered from a model, structural oracle, mutation against an independent recognizer", E, "Agreement with the model each document was rendered from." + SAMPLED),
 "C08": ("property-based testing: structured generation of hostile archives, unpacked by an unprivileged thread with fingerprinted surroundings and into a recording stand-in; containment invariant and symlink-resolution model", E, "No effect outside the destination in the generated archives." + SAMPLED),
 "C09": ("property-based testing: archives rendered byte by byte from a model tree in every legal layout, compared with the tree on disk; damage injection", E, "Agreement with the model each archive was rendered from." + SAMPLED),
 "C10": ("property-based testing: wheels rendered from a model, installed tree compared with an independent expectation, launchers really started, single-defect injection", E, "Agreement with the model each wheel was rendered from." + SAMPLED),
 "C11": ("property-based testing: model-based histories of pinned downloads against a scriptable loopback server whose content, errors and truncations change; sha256 oracle and model of what was verified; concurrent clients; bit-by-bit damage of hashes", E, "No counterexample in the generated histories." + SAMPLED),
 "C12": ("property-based testing: model-based operation histories; every system call of an operation replaced in turn by a kill, an error, an interruption or a short transfer; multi-process races with delay injection checked against a lock-protected model", E, "No counterexample in the generated histories, faults and schedules." + SAMPLED),
 "C13": ("property-based testing: model-based fill histories; every system call of a fill replaced in turn by a kill or a fault; multi-process races with delay injection", E, "No counterexample in the generated histories, faults and schedules." + SAMPLED),
 "C14": ("property-based testing: model-based request histories against a scriptable loopback origin with versioned pages, all cache headers, redirects and broken transfers; reference model of what must be asked; concurrent clients", E, "No counterexample in the generated histories." + SAMPLED),
 "C15": ("property-based testing: model-based seek/read histories against a cursor on the complete bytes, through a scriptable loopback server with every way of treating range requests and injected wrong answers", E, "No counterexample in the generated histories and server behaviours." + SAMPLED),
 "C16": ("property-based testing: pages rendered from a model in every legal HTML spelling, structural oracle", E, "Agreement with the model each page was rendered from." + SAMPLED),
 "C17": ("property-based testing: differential against a tag expansion written from the PEPs, ranking laws", E, "Agreement with an independent expansion over generated tags." + SAMPLED),
 "C18": ("property-based testing: generated universes of packages on a loopback index resolved by posy, every pin checked against an independent evaluator of requirements, markers, extras, Requires-Python, yanks and hashes", E, "No invalid solution in the generated universes." + SAMPLED),
 "C19": ("property-based testing: generated universes resolved by posy and by an independent exhaustive search; existence of a solution, preference for new versions, hints and determinism compared", E, "Agreement with an exhaustive search over small universes." + SAMPLED),
 "C20": ("property-based testing: round trip through every serde_json entry point and through re-rendered equivalent JSON", E, "Equality of every field after reload on generated values." + SAMPLED),
 "C21": ("property-based testing: generated indexes, locks and request histories; the installed environment is compared file by file with an independent ranking and model, earlier environments are fingerprinted; the environment's python and scripts are really started", E, "No counterexample in the generated requests and histories." + SAMPLED),
 "C22": ("property-based testing: generated source trees with a programmable backend that fails or lies on command and logs what it sees; histories of metadata, wheel and install requests across processes, interpreters and platforms; model of PEP 517 and of what can be built; the wheel cache is inspected after every request", E, "No counterexample in the generated source trees and histories." + SAMPLED),
 "C24": ("property-based testing and fuzzing: structure-aware mutation of documents from every reader's grammar, repetition and nesting to large sizes, hostile indexes that are resolved from, damaged archives, malformed HTTP answers; oracle: it returns, without panic, overflow or abort, within metered memory and computing time proportional to the input", E, "No crash and no disproportion in the generated inputs." + SAMPLED),
 "C23": ("property-based testing: generated indexes whose files disagree in a controlled way; every route to metadata (wheel, cache, lazy, sdist, pybi, re-listing) compared with the model of the release; bytes and digests compared with the listed ones", E, "No counterexample in the generated indexes and histories." + SAMPLED),
 "C25": ("property-based testing: request histories against a loopback index with a generated script of failures, differential with the same history without failures; reference model of when, how often and after what pause a request is repeated", E, "No counterexample in the generated histories and scripts of failures." + SAMPLED),
}
