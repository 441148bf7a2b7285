#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
SIM="One process, one thread, every decision drawn from the seed; the verdict is evidence from sampled executions, not proof. "
OS="The shipped release binary, unmodified, over simulated libc system-call wrappers (one seed, one execution); "
C={
"S01":("deterministic simulation: seeded chunk-store client against GraphemeCursor, refinement against a UAX #29 reference",
  SIM+"Trusts the frozen Unicode 10 class tables and the rule-by-rule reference segmenter (no code shared with the crate)."),
"S02":("deterministic simulation: seeded operation histories with abandoned requests, seeks and checkpoint/restore, per-answer refinement",
  SIM+"Same reference as S01; every completed answer is checked while the history proceeds."),
"S03":("deterministic simulation: conforming, slow, retrying and misplacing clients; request legality and bounded progress as invariants",
  SIM+"Progress is a bound on requests per answer derived from the number of pieces the client supplies."),
"S04":("deterministic simulation: seeded scheduler of two consumers on one iterator, with checkpoints; history checked against the reference",
  SIM+"Same reference as S01."),
"S05":("deterministic simulation: seeded scheduler of two consumers on one iterator, with checkpoints and failing predicates",
  SIM+"Trusts the frozen Unicode 10 word-break classes and the reference segmenter."),
"N01":("deterministic simulation: seeded interleaving of pulls, checkpoints, restores and prints of several adapters; refinement against a UAX #15 reference",
  SIM+"Trusts frozen Unicode 10 decomposition, combining-class and exclusion data and a reference normalizer written apart from the crate."),
"N02":("deterministic simulation: counted finite and endless sources, reads per pull compared with the shortest settling prefix",
  SIM+"Liveness as a bound on reads per pull; the settling prefix is computed by the reference normalizer."),
"N03":("deterministic simulation with fault injection: sources that fail at seeded positions, repeatedly; output conservation checked over the whole history",
  SIM+"Failures are injected panics of the source; the reference is the normalization of what was delivered."),
"N04":("deterministic simulation with fault injection: seeded chains of nodes that re-encode, cut, join, reorder, tear and damage copies of documents; identity of every copy as invariant, refinement against a UAX #15 reference",
  SIM+"Same reference and data as N01."),
"R01":("deterministic simulation: seeded scheduler of two consumers on one range, checkpoints and range round trips; reference set of scalars",
  SIM+"Ranges are biased towards the ends, the surrogate gap and the empty range."),
"R02":("deterministic simulation: rayon-core replaced by a seeded simulated pool (steals, preemption, split trees, panicking workers)",
  SIM+"Real rayon adapters over the simulated pool; the simulated pool runs one worker at a time, so data races inside a single step are out of reach."),
"R03":("deterministic simulation: seeded scheduler of several table readers and lookups, abandonment and reopening; refinement against a sorted-list model",
  SIM+"Table contents are random in the generator's form; of the generated tables only the block table is read here, compared with a frozen copy of the Unicode 10 blocks."),
"R04":("deterministic simulation with fault injection: seeded nodes that report, read and pass on property values through a log that changes case, tears, damages, repeats and mislabels; refinement against frozen tables of names and values",
  SIM+"Names and values are frozen copies of the unchanged tree's, cross-checked with another Unicode database where that has them (categories, bidi classes, mirrored, decomposition types, case changes, identifiers, white space); values of emoji and sentence break are the tree's own."),
"R05":("deterministic simulation with fault injection: seeded histories of operations on registries of several nodes (ordered maps, bisected lists, hash maps), with repeated, reordered and lost records; refinement against maps keyed by text and number",
  SIM+"Names and aliases of Unicode 10 from another Unicode database (listed names as hashes; which type an alias has is the tree's own)."),
"R06":("deterministic simulation with fault injection: seeded histories of splits, merges, take-overs and losses of shards, stale routers, requests routed by bisection and by membership; refinement against intervals",
  SIM+"Ends are biased towards 0, the surrogate gap and U+10FFFF."),
"W01":("deterministic simulation with fault injection: seeded failing, filling and panicking sinks; prefix and silence-after-failure invariants",
  SIM+"The full text of a value is what the value itself prints to an unfailing sink (its content is checked by other means only where listed)."),
"W02":("deterministic simulation with fault injection: seeded device with partial writes, interruptions, zero writes and errors; reference rendering",
  SIM+"Reference renderings are written apart from the crate."),
"L01":("deterministic simulation with fault injection: seeded histories of operations, saves and restores over a damaging store; reference state machine",
  SIM+"Storage formats: JSON and a small binary format."),
"L02":("deterministic simulation: seeded layout client (breaks, re-breaks, repeated and reordered line requests) over shared bidi info; each line refined against rules L1 and L2",
  SIM+"The resolved levels themselves are the library's (see L04); the fault kinds that apply are abandoned and repeated layouts."),
"L03":("deterministic simulation: seeded editor histories with incremental re-analysis, undo and loss of computed state; refinement against analysis of the whole text and rules P1-P3",
  SIM+"Resolved levels are compared between the two ways of computing them; with UAX #9 in L04."),
"L04":("deterministic simulation: seeded author histories of opened, closed, over-closed and deleted directional spans, with undo; refinement against a stack machine of rules X1 to X8 and rules W1 to I2",
  SIM+"Where a recorded finding or brackets are in play, levels are exact for strong and overridden characters and Arabic numbers and bounded for others; the fault kinds that apply are overflow, unmatched ends and lost ends."),
"I01":("deterministic simulation: seeded cooperative scheduler over operations of all kinds, with re-entrance, abandonment and failing callbacks; each compared with its solitary run",
  SIM+"The oracle is the operation run alone in the same process before and after; preemption happens only between steps and in callbacks."),
"W03":("deterministic simulation with fault injection: the shipped programs over a simulated kernel (partial writes, interruptions, full disk, closed pipe, failing allocations)",
  OS+"expected output is rendered by a reference, except the table layout of the inspector, which is that of an undisturbed run."),
"T01":("deterministic simulation with fault injection: the table generator over a simulated kernel for its files; resulting tree compared with an undisturbed run's",
  OS+"made-up small data in the real file formats; the content of an undisturbed run is compared with an independent model of the tables."),
"T02":("deterministic simulation with crash injection: the table generator dies before, after or inside system calls, unfinished writes torn or lost, then is run again",
  OS+"same data as T01; power failure is modelled as loss of un-synced writes and un-synced directory changes of the dying run."),
"T03":("deterministic simulation with fault injection: every mutating system call of the table generator and the tree around its directories watched under faults and crashes",
  OS+"runs inside a scratch directory; calls outside it are refused and reported by the simulated kernel."),
"D01":("deterministic simulation with fault injection: registrants, resolvers and displays converting names over a network that rewrites, repeats, delays and damages them; identity as invariant, refinement against another implementation",
  SIM+"Trusts the frozen Unicode 10 IDNA mapping, bidi classes and marks (cross-checked with other copies) and reference implementations of UTS #46 and RFC 3492 written apart from the crate."),
"E01":("deterministic simulation with fault injection: the maintenance scripts over a simulated cargo and registry (failing, killed, refused and half-reported commands, death of the script), invariants per command and completion by re-running",
  "Real bash and scripts; cargo, tput and the registry are simulated. Crates and their dependencies come from the manifests of the working tree; the death of the script is simulated at commands, not between other steps."),
"I02":("deterministic simulation: real threads run one at a time under a seeded scheduler with preemption at compiler-inserted points; each operation compared with its sequential run in a fresh process",
  "Sequentially consistent interleavings only: weak-memory effects and data races as such are out of reach (Send/Sync of the public types is checked statically); std itself is not preempted except where it blocks."),
}
EXTRA={}
try:
    exec(open('/verif/tools/manifest_more.py').read())
except FileNotFoundError:
    pass
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
PURE="Pure function of its arguments: no concurrency, time, I/O, state carried between calls or other party for a schedule or fault to act on, so simulation would be plain input sampling. See DESIGN.md."
checks=[];na=[]
for p in props:
    i=p['id']
    if i in C:
        t,n=C[i][:2]
        checks.append(dict(property=i,quick_cmd="./check "+i,thorough_cmd="./check "+i+" thorough",evidence_file=f"evidence/{i}.json",
                           technique=t,level=C[i][2] if len(C[i])>2 else "exploration",level_note=n))
    else:
        na.append(dict(property=i,reason=EXTRA.get(i,PURE if i[0]=='P' else "no check yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not applicable")
