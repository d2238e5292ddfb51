HEAD = '''# Static verification of zenomt/rtmfp-cpp

(Written by `devtools/design.py` from the property list, the rule texts in the sources and `devtools/design_notes.py`.)

## Machinery

`tool/extract.cpp` (libclang-18 LibTooling, built by `setup.sh`) parses every translation unit of `/repo/src` with the
repository's own compile flags and dumps the *resolved program*: per function a control-flow graph whose elements are
lowered operations (loads, stores, calls with resolved callees and overriders, lambda creations with captures,
constructor initialisers, branches with their condition decomposed), types, fields, constants and class hierarchy.
Facts are rebuilt whenever a source changes (keyed by content, kept under `/verif/.cache`); nothing is taken from the
text of the program, so renamed locals, extracted helpers, reordered statements and rewritten loops do not matter.

`engine/` holds the deciders:

- `psa.py`: path-sensitive abstract interpreter / typestate engine. Values are interned terms (symbols, fields of
  symbols, constants with enumeration or interval domains, lambdas with captures). A check provides a `Client` with the
  events of interest, what is opaque, what an unknown call may change, and what must hold at each event. Calls are
  followed; virtual calls go to every override; function objects called in place are followed, ones handed over for
  later are analysed as continuations in a state from which everything mutable was forgotten. Loops are run to a
  fixpoint over merged states. There is no solver: branches are decided by constant, interval and recorded-fact lookup.
- *obligation lifting* (`ctx.discharge`): where a function does not itself establish what an event needs, its callers
  (and the creators of its lambdas) are analysed with the callee followed, up to the public entry points. A fact left
  unproved at an entry point is the violation, reported with the path.
- `zone.py`: relational abstract interpreter for C01 and C02 (linear inequalities over interned symbols, interval
  facts, implications, loop invariants guessed from candidates and checked for inductiveness, function summaries by
  parameter type, Fourier-Motzkin projection at exits).
- `lib.py`: call graph, reachability, must-dataflow, typed queries.

Every check prints what it analysed and writes it to `evidence/`; a rule whose anchor disappeared (no instance found)
ends with exit 2 (no answer) rather than a pass. `check.py ID [--thorough]`: both tiers decide the whole property; the
thorough tier raises inlining depth, lifting depth and step limits.

Soundness limits common to all checks: C++ semantics of the standard containers, smart pointers and `std::function`
are modelled by hand in `psa.py`/`zone.py`; memory is field-based with recency per path (two objects reached through
unrelated expressions are taken to be distinct unless compared); exceptions (`bad_alloc`, `at()`) are not followed.
Level is therefore "other" (exhaustive over abstract paths under the stated model), not "proof".

Evaluation: `devtools/muts/*.txt` hold small edits per property (bugs that must be reported, behaviour-preserving
edits that must stay quiet), run by `devtools/muts.py`; `devtools/seeds/*.txt` are the sources of the planted bugs in
`seeded/`, built and confirmed (demo both ways, stable tests) by `devtools/mkseed.py`. No check reads either.
'''
NOTES = {
'C03': 'Decode steps are derived from the type of the function (encoded bytes in, output parameter or filled object, an answer that is zero, false or null on failure), so helpers extracted later are found too. Oracle: on the path to each use the answer is decided to be success. An advance by a possibly failed step is tolerated when the failure is noticed before the next step. About 4 s.',
'C27': 'Oracle: the table itself: a handler is in it exactly from the written command to its one call. Numbers read from AMF are kept apart from the integers cut from them, so that a test of the fraction (0.5 > 0) does not count for the integer; this found the defect repaired in /repo. Text comparisons with a literal are memoised per literal. Under 2 s.',
'C29': 'Oracle: the comparison of the expected number with those recorded plus the one arriving. Only flows delivering in sequence are held, because a hold is always ended as sequential. Resumption is checked in the destructor of the point, for each element and for all of them; a missing destructor is a violation. Under 2 s.',
'C01': 'Oracle: the range (pointer, length) each function was given. Out of scope: the packet builder (C02) and `SessionCryptoKey::encrypt` overrides, whose buffers are the builder\'s. Assumes `std::vector`/`std::string` sizes as modelled, platform passes true lengths. Cost about 60 s on 8 cores.',
'C02': 'Oracle: class invariant of the builder; assumption: an encoded number takes at most 10 bytes (`VLU::MAX_VLU_SIZE` is checked against it). About 3 s.',
'C04': 'Oracle: constant at most 1024. Virtual dispatch makes the graph an over-approximation. 1 s.',
'C05': 'Oracle: RFC 7016 responder order, as marks bound to terms (same certificate, same bytes, same address). The adapter\'s continuations are trusted to be called only on success.',
'C06': 'As C05 for the initiator. Exempt: the perform(0) task that only aborts the session on a failed certificate (it can only end a handshake).',
'C07': 'The operations protected are listed by type (session creation, tables, `perform`, timers, certificate and signature methods).',
'C08': 'Inductive: unknown calls may raise the state but never lower it.',
'C09': 'The table of allowed (chunk, mode, state) is written in the rule from RFC 7016 2.3 and 3.5.',
'C10': 'The endpoint is analysed twice: session present in every table, and another session in its place. Covers early and late ends. History: two repaired defects (see below) came from this check.',
'C11': 'Ownership of captures is by type (smart pointer captures own, this / references / bare pointers do not); a timer action that does not own must be kept by a member of the object it uses. Not decided: callback members the application also sets, and the redirector client replacing a timer (the sequence of its states). One repaired defect (the shutdown-complete task) came from this check. About 6 s.',
'C12': 'Crypto adapter objects are trusted to be thread safe, as the interface asks of them.',
'C13': 'Shared flags are re-read as fresh unknowns, which covers every interleaving; the pipe is modelled as a wake-up only.',
'C14': 'The keyed hash is trusted; what goes into it is decided by must-dataflow.',
'C15': 'Pairing per fragment of flag, list and bytes; loops over the list with a following clear count as removal. After the session ended the statement does not apply (the flow keeps stale bytes; see also the statement).',
'C16': 'Receipt as typestate (R1-R3), queue removals paired with exactly one release (R4), sweep on every end (R5).',
'C17': 'Field-sensitive; `retain`/`swap` idioms are followed.',
'C18': 'The application is modelled as any function that may call `accept`.',
'C19': 'The statement allows flows on still-open sessions. Bounded lifting through continuations (depth 3).',
'C20': 'What the platform does with the traffic class is outside.',
'C21': 'Amounts are symbolic; only comparisons made on the path count.',
'C22': 'Primitives trusted. A failure inside `hmacSHA256` itself is a known weakness outside the statement.',
'C23': 'Every configuration flag and every byte of the peer component is an unknown.',
'C24': 'Includes re-entrant calls: an application callback may cancel, reschedule or create any timer.',
'C25': 'Both run loops are held to one rule set; a third implementation is picked up by type.',
'C26': 'Arrays and aggregates with value-initialisation are followed through delegated constructors.',
}
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from notbuilt import NB as NA
SEEDS = {}
TAIL = '''
## False alarms met and what was done

- C01: loops with two coupled cursors and helper-returned lengths first failed to prove; candidate invariants and
  summaries with implications were added. No obligation is suppressed by location.
- C06: the handling of a failed certificate posts a task that aborts without testing the state; the statement covers
  sending and opening, so aborting was taken out of the rule.
- C15: the statement first included closed sessions; the library deliberately leaves the counter of a dead flow as it
  is, so the statement is restricted to open sessions.
- C16: "every write completes" was too strong (a peer may never answer); it now speaks of release, abandonment and
  at-most-once completion.
- C19: `shutdown` lets `openFlow` use sessions still open; the statement says so.
- C22: replay protection applies only when negotiated; the statement says so.
- Several checks first alarmed on extracted helpers. Functions that balance a pair of effects by themselves are now
  barriers, others are followed as helpers and only entry points are judged.
'''
