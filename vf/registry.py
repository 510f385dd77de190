CHECKS = {
    "D01": ("mailbox", "d01"),
    "D02": ("mailbox", "d02"),
    "D03": ("mailbox", "d03"),
    "M01": ("mailbox", "m01"),
    "M02": ("mailbox", "m02"),
    "S01": ("safew", "s01"),
    "S02": ("safew", "s02"),
    "S03": ("safew", "s03"),
    "S04": ("safew", "s04"),
}
CHECKS.update({"H01": ("hash", "h01"), "H02": ("hash", "h02")})
CHECKS.update({"L01": ("lists", "l01"), "L02": ("lists", "l02")})
CHECKS.update({"V01": ("varint", "v01"), "V02": ("varint", "v02")})
CHECKS.update({"T01": ("timec", "t01"), "T02": ("timec", "t02")})
CHECKS.update({"T03": ("timec", "t03"), "T07": ("timec", "t07")})
CHECKS.update({"T04": ("timec", "t04"), "T05": ("timec", "t05")})
CHECKS.update({"T06": ("timec", "t06")})
CHECKS.update({k: ("rng", k.lower()) for k in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09")})
CHECKS.update({k: ("text", k.lower()) for k in ("U01", "U02", "C01")})
CHECKS.update({"G01": ("macros", "g01"), "G02": ("macros", "g02")})
CHECKS.update({k: ("files", k.lower()) for k in ("F01", "F02", "F03", "I01")})
LEVEL = {}
DEFTECH = "TLA+ specification checked with TLC, bound to the code by trace validation"
DEFNOTE = ("The TLA+ model is checked exhaustively within its bounds; the real code is driven over an explored set of "
           "schedules/inputs and every recorded behaviour is judged against the specification by TLC. Assumes the harness "
           "(interposition, recording) is faithful and that bounds beyond those explored behave alike.")
_MBX = ("Design model in TLA+ (lock/notify/wait grain) model-checked with liveness and refinement; the real code runs as "
        "fibers under a deterministic scheduler over preemption-bounded and random schedules, virtual time, injected EINTR and "
        "spurious wake-ups; every call/return history is checked for linearizability to the TLA+ queue by TLC. Trusts the "
        "scheduler, the kernel's pipes, sequentially consistent memory.")
NOTE = {k: _MBX for k in ("D01", "D02", "D03", "M01", "M02")}
TECHNIQUE = {k: "TLA+/TLC: design model checking + linearizability of recorded histories" for k in ("D01", "D02", "D03", "M01", "M02")}
_SAF = ("TLA+ design model of the two-pair protocol with crashes (model-checked, wrong orderings refuted). The real code runs "
        "under a system-call interposer with fault injection at every operation; its outcomes and operation sequences are judged "
        "by TLC; crash states are computed by a TLA+ file system model and fed back to the real recovery code until no new state "
        "appears. Assumes ordered metadata, data durable only after fsync, and a start-up check before each session.")
NOTE.update({k: _SAF for k in ("S01", "S02", "S03", "S04")})
TECHNIQUE.update({k: "TLA+/TLC: crash-closure model, design model checking, judging of recorded operations and outcomes"
                  for k in ("S01", "S02", "S03", "S04")})
_SEQ = ("TLA+ model checked exhaustively at small bounds (wrong variants refuted); TLC enumerates its behaviours, which are replayed "
        "in the real code, and longer random histories of the real code are judged step by step by TLC against the same model. "
        "Trusts the recorder and that larger sizes behave like those explored.")
NOTE.update({k: _SEQ for k in ("H01", "H02", "L01", "L02")})
TECHNIQUE.update({k: "TLA+/TLC: model checking, replay of generated behaviours, trace validation" for k in ("H01", "H02", "L01", "L02")})
_FUN = ("The TLA+ definition of the function is model-checked for its laws at small widths (wrong variants refuted) and evaluated by "
        "TLC at full width on every recorded call of the real code over boundary-complete and random inputs. Inputs outside the "
        "explored set are assumed to behave alike.")
NOTE.update({k: _FUN for k in ("V01", "V02")})
TECHNIQUE.update({k: "TLA+/TLC: laws model-checked, recorded calls judged by the TLA+ definition" for k in ("V01", "V02")})
NOTE.update({k: _FUN for k in ("T01", "T02", "T04", "T05")})
TECHNIQUE.update({k: TECHNIQUE["V01"] for k in ("T01", "T02", "T04", "T05")})
NOTE.update({k: "TLA+ design model of the algorithm (interleaved with time and signals) model-checked, wrong variants refuted; the real "
             "code runs in a virtual world (clocks, sleeps, signals, failures wrapped at link time) and TLC judges every recorded call."
             for k in ("T03", "T07")})
NOTE["T06"] = _SEQ
TECHNIQUE["T06"] = TECHNIQUE["H01"]
NOTE["R04"] = ("TLA+ design of eras and pools (threads, forks, interleaved) model-checked, wrong variants refuted. The real code runs under "
               "enumerated schedules of real threads; every schedule is repeated with one entropy fetch answered differently, so the fetches "
               "each output derives from are observed; TLC judges each history. Assumes fewer than 2^31 reseeds, sequentially consistent memory.")
NOTE["R05"] = ("TLA+ design of the fetch loop against an arbitrary system model-checked (safety and termination), wrong variants refuted. The real "
               "code runs under a system-call interposer that answers with known bytes, pieces, interruptions and errors; TLC judges every call.")
_RND = ("The TLA+ algorithm is model-checked exhaustively at small sizes by counting (every result has equally many raw draws; wrong variants "
        "refuted). The real code runs on fixed entropy; TLC judges recorded calls exactly and recorded frequencies against bounds of 7 standard "
        "deviations. Biases below those bounds are not seen.")
NOTE.update({k: _RND for k in ("R01", "R02", "R03", "R06")})
TECHNIQUE["R04"] = "TLA+/TLC: design model checking, judging of histories recorded over enumerated schedules"
TECHNIQUE["R05"] = "TLA+/TLC: design model checking, judging of calls recorded under fault injection"
TECHNIQUE.update({k: "TLA+/TLC: algorithm model-checked by counting, recorded calls and frequencies judged by TLC" for k in ("R01", "R02", "R03", "R06")})
NOTE.update({k: _FUN for k in ("U01", "U02", "C01")})
TECHNIQUE.update({k: TECHNIQUE["V01"] for k in ("U01", "U02", "C01", "G01")})
NOTE["G01"] = _FUN
NOTE["G02"] = ("Generated programs (condition trees, class uses, format calls) go through gcc, clang and g++ in several language versions; TLC evaluates "
               "each condition in the specification and judges whether the program had to be accepted. Sampled conditions; trusts the compilers.")
TECHNIQUE["G02"] = "TLA+/TLC: specification of the conditions evaluated by TLC on recorded verdicts of the compilers on generated programs"
_FIL = ("TLA+ design model of the algorithm with failures at every step model-checked, wrong variants refuted. The real code runs on real files and "
        "descriptors in scratch directories under a system-call interposer with every operation failing in turn; TLC judges every recorded run "
        "against the specification. Trusts the kernel and the interposer; sizes and trees beyond those explored are assumed to behave alike.")
NOTE.update({k: _FIL for k in ("F01", "F02", "F03", "I01")})
TECHNIQUE.update({k: "TLA+/TLC: design model checking, judging of runs recorded under fault injection" for k in ("F01", "F02", "F03")})
TECHNIQUE["I01"] = "TLA+/TLC: design model checking, trace validation of recorded histories with arrivals at chosen points"
NOTE["R07"] = ("TLA+ design of seeding (key cells, eras, an arbitrary source) model-checked, wrong variants refuted. The real code runs programs of "
               "requests and reseeds under a system-call interposer; each is repeated with every entropy byte changed in turn, so the bytes each "
               "output depends on are observed; TLC judges. Assumes output depends on entropy alone.")
TECHNIQUE["R07"] = TECHNIQUE["R05"]
NOTE["R08"] = ("TLA+ design of the buffer and its keys model-checked (nothing handed out is in memory or computable from it), wrong variants refuted. "
               "After each operation of recorded programs all writable memory of the real process, stacks left out, is searched for what was "
               "handed out, for the system's keys and for keys whose ChaCha20 keystream yields it; TLC judges. Other ways to compute are not tried.")
TECHNIQUE["R08"] = "TLA+/TLC: design model checking, judging of recorded memory contents"
NOTE["R09"] = ("The ChaCha20 block function is written in TLA+ (checked against the example of RFC 8439) and a small cipher of its kind is model-checked for "
               "diffusion over all seeds, weakened variants refuted. The driver names keystream pieces and keys that explain each recorded output, TLC "
               "computes and compares them; counts of what each flipped seed bit changes are judged by TLC within 9 standard deviations.")
TECHNIQUE["R09"] = "TLA+/TLC: executable specification of the cipher, recorded outputs judged against it"
CHECKS.update({"P01": ("conc", "p01")})
NOTE["P01"] = ("TLA+ design of calls with scratch, tables and settings model-checked, wrong variants refuted. Real threads run programs of calls on objects "
               "of their own under a scheduler that may switch at every access to static memory of any module and around the C library's stateful calls; "
               "every schedule within the bound on switches is run and TLC compares what each call yields with what it yields alone in a fresh process. "
               "Assumes sequential consistency.")
TECHNIQUE["P01"] = "TLA+/TLC: design model checking, outcomes of enumerated schedules of real threads judged by TLC"
NA = {
    "X01": "Unpredictability is a statement about all computationally bounded observers; a state-machine specification "
           "with explicit states cannot express or decide it (R04-R09 cover what is observable).",
    "X02": "Absence of undefined behaviour is a property of the memory model below any TLA+ state; the checks do run the "
           "code with guard bytes and crash detection, but do not decide this property.",
}
