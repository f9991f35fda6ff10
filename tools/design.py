#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property made of the
notes below, the rule in the evidence file and the planted changes, and
tools/design_tail.md. Run after all checks have written their evidence."""
import glob, json, os, subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# per property: how monitoring decides it; why it reaches what tests cannot
NOTES = {
"C01": ("The monitor keeps a Go map from key number to the token last put and compares the answer of every call; audits compare Size, Has and Get of every key of the universe (present or not) and drain Iterate, Keys, Values and Items. Keys hash by one of 14 functions chosen per case: constant, two buckets, negative, extreme ints, low bits equal, high bits equal, spread.",
        "A defect in a growth step or in a collision chain needs a particular relation between hash values, table size and history. The hash is a parameter of the case here, so such relations are sampled directly instead of waiting for them to arise from random strings."),
"C02": ("Lock step with a map and the sorted list of its keys. Besides the map interface the nodes are walked from Root: the walk must be a binary search tree holding exactly the entries of the reference, and iterators must yield them in order.",
        "All insertion and removal orders of five keys are enumerated and orders of 6 to 11 keys sampled, so every rotation and two-child removal shape at small depth is executed, in both trees, and each is compared completely."),
"C03": ("A structural monitor: after each change the tree is walked through the public node interface and true heights are computed bottom up; |left-right| <= 1 and the reported Height equal to the real one are checked at each node.",
        "An imbalance has no visible effect on answers. The monitor looks at the shape after every operation, so a transient imbalance that a later operation would repair is seen."),
"C04": ("Each version is recorded at creation as a list of (key, value, depth, height); later operations start at random old versions and all live versions are recomputed and compared. Iterators are kept half-way and finished later. In shared cases goroutines read and derive at once in a race detector build.",
        "A missed copy is only visible in an older version, which tests drop; a write to a shared node is also a data race as soon as one goroutine reads that version, and the detector reports it even if no value differs."),
"C05": ("Lock step with a map; audits as C01 plus key order. Node sizes 2 to 64.",
        "Split and unlink code is exercised at all node sizes, with drained maps refilled, overwrites at leaf boundaries and orders (ascending, descending, zigzag, blockwise) that put splits in the first, middle and last position."),
"C06": ("Reference multimap. Conditions passed to WhereReplace/RemoveWhere are closures that log every pair shown to them; the log must be a permutation of the pairs of that key. Has, Count, Find, Size are compared for all keys after each operation.",
        "Duplicate runs that span several leaves, partial removal inside them and refilling of emptied nodes are produced by construction (few keys, many adds, small nodes)."),
"C07": ("At audit points forward, backward, keys, values, items are drained and compared with the sorted reference; ranges are compared for every pair of bounds out of a universe with gaps below, between and above the present keys.",
        "All pairs of bounds are tried rather than some; errors at range ends depend on how the bound lies relative to leaf boundaries."),
"C08": ("Lock step with a map over byte strings, alphabets of two, four and 255 bytes including 0x01, 0x7f, 0x80 and 0xff, keys sharing prefixes; invalid keys are mixed in and must be refused without effect.",
        "The state of the compressed leaves after removals is history dependent; enumerated histories over prefix chains reach each combination of inner/leaf/absent."),
"C09": ("Iterators compared with the bytewise sorted reference; prefix searches compared with a filter over it for all prefixes of all keys, all of them extended by one byte, absent prefixes, and prefixes with null bytes.",
        "Prefixes are derived from the present and removed keys, so the walk ends at every kind of place in the trie."),
"C10": ("Every key passed is a window into a larger buffer with canary bytes and spare capacity. After the call the whole buffer is compared with a copy (no writes) and overwritten (no references kept), then the trie is audited. The prefix buffer is changed while a prefix search is in progress. Yielded keys are appended to. Concurrent lookups share overlapping buffers under the race detector.",
        "Aliasing is invisible unless the caller reuses its memory; the harness always does."),
"C11": ("Reference slice of item identities (not only equal values); all results and errors compared; fixed lists keep their capacity bound in the model.",
        "Sizes and positions around each growth and shrink threshold are generated; short histories are enumerated."),
"C12": ("Reference sorted slice of item numbers; Find is compared with the first position not less than the item.",
        "Long runs of equal items at the ends of the search interval and full fixed lists are generated on purpose."),
"C13": ("Reference set for each backing structure; reference map for the map-entry set; random picks are repeated 80 times per member: the chance that a uniform pick misses a given member is exp(-80).",
        "One driver runs on all backings, so an adapter that differs for one of them shows."),
"C14": ("Mathematical sets as bit sets; results and predicates compared through methods and package functions, operands audited before and after.",
        "All pairs of subsets of four items for all mixtures of kinds are enumerated; longer random sets add merge interleavings."),
"C15": ("Encode, decode into a fresh or used value, overwrite the bytes, compare; encode again and compare bytes; then run the same operations on the decoded collection and a model.",
        "Value extremes, item lengths around 2^8 and 2^16, item counts beyond 65536 and flags are enumerated."),
"C16": ("Fault injection: truncation at every length, larger counts and lengths, smaller capacities, random damage judged by a reference parser of the format. An error is demanded and the receiver, filled beforehand, must be unchanged.",
        "The inputs are invalid by construction; each cut position of an encoding is a different path."),
"C17": ("Laws checked over all pairs and triples of pools of values: extremes, neighbours, equal values in separate memory, values with equal hashes (found by birthday search at start-up), values of other types. Hashes are compared between processes.",
        "The laws quantify over pairs, and equal-hash unequal-value pairs cannot be guessed by a test writer."),
"C18": ("Containers of six kinds built by different histories (with removals, over-capacity, from copies) from equal or slightly different sequences; compared pairwise in both directions with the order on sequences; used as keys of five maps.",
        "Differences between kinds or left-over state after shrinking only show across kinds and histories."),
"C19": ("Multiset of pushed tokens with priorities; a pop must return a token whose priority is extreme among those present, each token once. Verify of the heap is called after every operation.",
        "All push sequences of seven items with three priorities with pops at each position are enumerated."),
"C20": ("Reference set of (item, first priority); pops must be extreme; re-adding after popping is frequent.",
        "Items are instrumented keys with hostile hashes, so that the membership set inside is exercised as well."),
"C21": ("Reference sequence with identities; forward and backward iterations must mirror each other at every audit.",
        "All histories of seven (nine) operations are enumerated: the meeting of both ends at lengths 0, 1, 2 is covered in every order."),
"C22": ("Reference sequence of distinct items; as C21 plus membership over the universe.",
        "Enqueue of present, dequeued and re-enqueued items at both ends is enumerated over two items and sampled over many key types and hash functions."),
"C23": ("A reference recursive traversal of generated trees gives the expected visit log. Tree nodes are harness types: pointers with untyped nil and typed nil children, value types, n-ary.",
        "All 626 binary shapes up to seven nodes and all chains of up to five iterators are enumerated."),
"C24": ("Each job increments its own counter and a running gauge; each submitter keeps the answers. After Stop the counters of accepted jobs must be 1, of refused ones 0, the gauge never above the number of workers. Built with the race detector. Whether something *can* happen is forced by channels, not by sleeping.",
        "Cases force full queues, stops in the middle of submissions and jobs that submit jobs."),
"C25": ("Event monitors: an atomic counter of jobs running and accepted is examined while the waiting lock is held; results of jobs are plain variables, so a missing happens-before edge is a race report. The waiting count is checked with jobs that end on command, one at a time, and against falling counts.",
        "Barriers are judged by happens-before through the race detector, so a wrong barrier is reported even if the schedule happened to be benign."),
"C26": ("The standard generator with the same seed gives the reference stream. With several goroutines the drawn values must be exactly the prefix of the stream as a multiset, increasing in stream order per goroutine. Race detector build.",
        "A lost or doubled value is found by accounting for every value, not by statistics."),
"C27": ("Generated programs of nested blocks are run by the library and by a reference interpreter written from the documentation; the traces of executed parts, results and propagating exception must be equal.",
        "The grid enumerates throw type x catches x what catch and both finally parts do x way of running; nesting is random."),
"C28": ("Programs as C27 with closing blocks; each resource counts its closes; traces fix their place. Join and chain histories compare error lists of all exceptions after each step.",
        "Failing open, failing close, rethrow and running a block again are combined."),
"C29": ("Unique tokens in messages and uniquely named creating functions; the report is parsed for order of tokens and the first goroutine's functions. Log output is captured through a pipe.",
        "Formats that look like formats again, deep stacks, many goroutines and repeated rethrowing."),
"C30": ("Source and derived collections each have their own model and are all audited after each operation on any; slices passed in have spare capacity and are overwritten afterwards.",
        "Shared backing arrays only show when one side writes into capacity the other believes to own; histories go on after the copy."),
"C31": ("Several goroutines run every reading operation on one collection in a race detector build; answers are compared with those of an equal collection read alone; afterwards both must behave equally under further changes.",
        "The race detector turns hidden writes in reading operations into reports."),
"C32": ("Keys count the comparisons made on them. Each operation has a limit from the statement (trees, sorted lists), each phase of 100 or more operations an average limit (hash tables). No clock.",
        "The quantity itself is measured; a degenerate structure answers correctly and passes tests."),
"C33": ("Two or more iterators of all kinds over one collection are advanced in random interleavings, abandoned, mixed with reads; each must yield the sequence it yields alone, which must agree with the model.",
        "Shared cursors or stacks only show when two iterations overlap."),
"C34": ("A reference list of the items' own texts is kept in step; the text of the collection is compared with the join of it. The trie's text and graph are parsed: keys shown, node kinds, edges, connectedness.",
        "Printing after removals and in spare capacity; the graph is checked as a graph, not by eye."),
"C35": ("Entries, nodes and bare keys made in many ways are compared pairwise and the answers held against the order of the key numbers; containers are compared with things that are not containers; bare keys are offered to sets of entries and the set audited.",
        "Mixed comparisons do not occur in tests, yet they decide what sets of entries hold."),
"C36": ("Cases of 25 other properties run side by side, each goroutine on its own objects with its own model; a failure counts only if the same case does not fail alone. Each case is repeated, in a race detector build, so that state shared behind the scenes is reported as a race even if the answers agree.",
        "Package-level scratch state is invisible to sequential tests, and to concurrent ones on a single shared object."),
"C37": ("Keys and values are watched by weak pointers; after a forced garbage collection the removed ones still reachable are counted, and live heap objects and bytes compared with the state before. The bound is a multiple of the largest number of items held at a time, so slack slots are allowed and growth with the number of passed items is not.",
        "Reachability is not observable through the interface at all; the sanitizer-like monitor is the only way to see it. It found a real leak in the B+Tree."),
"C38": ("The keys of the harness record every Equals and Less whose argument is nil or not a key. Cases of 15 other properties are run again with the record switched on; an entry in it is a violation even if all answers were right.",
        "The library's own key types answer false for strangers, so nothing shows in answers; the argument itself has to be observed."),
"C39": ("Generated tests run under the Go test runner in a child process, which reports how far each got and whether it failed; its output must hold the messages. Random data are held to length, coverage of all values and difference between calls, with error probabilities below 10^-10.",
        "The tests of the repository only pass; an assertion that never fails would hide every other defect from them."),
"C40": ("Each case is a group of different values that share all but one place; the hashes of the group are counted. The bound allows one in 16 to collide (three in four for integers, because the 64-bit types fold their halves, which joins x with its complement).",
        "A weak hash changes no answer; only the hashes of many near-equal values together show it."),
"C41": ("The allocator's own counter of bytes ever allocated is read before and after each phase of thousands of operations in a single-threaded worker, so garbage counts too. The bound lies between what the present growth policy takes (about 1000 bytes per append) and what copying the collection each time would take (50000 and more).",
        "Wasted allocations change no answer, and time is not a usable oracle; the counter is exact."),
"C42": ("The library is compiled with coverage counters, which count every execution of every basic block; the sum is read before and after each phase. This is the steps taken, exactly, and the same on every machine. Most operations take below 500; an operation that looks at every item takes several thousand.",
        "Time is no usable oracle; comparisons (C32) do not see walks along pointers, counting, or copying. The counters see every loop."),
"C43": ("An array of flags and values by rank is the model; all lookups and complete iterations are compared with it before and after random changes, and sizes around 2^7, 2^8, 2^15, 2^16 and 2^17.",
        "The other lockstep checks stay below 65536 items for most structures; counters or positions in 16 bits, and thresholds beyond, need larger ones."),
}

def read(name):
    return open(os.path.join(here, "tools", name)).read()

def table(name):
    return json.loads(read(name)) if os.path.exists(os.path.join(here, "tools", name)) else {}

thorough = table("thorough_cost.json")
catch = table("catches.json")
seeds = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    m["id"] = os.path.basename(os.path.dirname(f))
    seeds.setdefault(m["property"], []).append(m)
out = [read("design_head.md")]
out.append("## 2. The properties\n\nThe statement of each property is in `properties.jsonl`. *Cost* is wall time on 8 cores at the quick and the thorough tier, with the number of cases of the quick tier.\n")
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    ev = json.load(open(os.path.join(here, "evidence", i + ".json")))
    c = ev["coverage"]
    how, why = NOTES[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Oracle.* %s\n" % how)
    out.append("*Cases and bounds.* %s\n" % c["rule"])
    out.append("*Beyond the tests.* %s\n" % why)
    out.append("*Cost.* Quick %.0f s, %d cases (%d distinct non-trivial), %d operations, %d audits%s; thorough %s s.\n" % (
        ev["wall_s"], c["evaluations"], c["distinct_nontrivial"], c["operations"], c["audits"],
        ", race detector" if c["race_detector"] else "", thorough.get(i, "?")))
    s = seeds.get(i, [])
    if s:
        out.append("*Planted changes caught.* " + "; ".join("`%s` (%s: %s)" % (m["id"], m["needs"], m["what_it_breaks"]) for m in s) + ".\n")
out.append(read("design_tail.md"))
rows = ["| planted change | own check | other checks that report it |", "|---|---|---|"]
for i in sorted(seeds):
    for m in seeds[i]:
        got = catch.get(m["id"])
        others = ", ".join(x for x in got if x != i) if got is not None else "not measured"
        rows.append("| `%s` | %s %s | %s |" % (m["id"], i, "yes" if got is None or i in got else "NO", others or "none"))
out.append("\n".join(rows) + "\n")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
