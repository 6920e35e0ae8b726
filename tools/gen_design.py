"""Writes DESIGN.md from the properties, the checks' own descriptions, the findings, the results of the planted bugs and the text below."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Model checking eth-easl/mixtera

(generated by tools/gen_design.py)

## Method

Everything runs the real code of /repo's working tree, imported by harnesses in /verif that enumerate a bounded space
*completely*. There is no separate model whose relation to the code would have to be argued: where a reference model is
used, the real code is executed on every step of every enumerated behaviour and compared with it
(`traces_validated_against_impl` in the evidence counts these comparisons). The exploration styles are

* **small-scope enumeration** of inputs and configurations (layouts of samples over files and domains, mixtures, filters,
  records, messages ...), compared with independent oracles written from the property, not from the code;
* **operation histories**: all sequences of operations up to a depth, breadth first or as a tree, with merging of equal
  (model, implementation) states where that is sound;
* **schedules**: a controlled scheduler (`mc/sched.py`) runs threads and stand-ins for processes one at a time and
  enumerates all schedules up to a preemption bound; scheduling points are lock/condition/event/queue operations and, where
  the code under test is itself the synchronisation, every attribute access or source line. For the server, an own event loop
  and in-memory network (`mc/aio.py`, `mc/net.py`) make every delivery and every worker-thread step a decision. For the native
  extension, the C++ sources are compiled with function-entry hooks (`mc/native/sched.*`) that hand control to a scheduler;
* **fault and crash points**: `mc/fault.c` (preloaded) ends a forked child at its n-th file-system call, before, within
  (torn write) or after it, for every n; other harnesses raise an error from, or cut, every single call, request, response.

No sampling and no solver is involved. Every run is deterministic: VERIF_SEED changes nothing but is accepted.

### Machinery (`mc/`)

* `env.py` - locates the tree under test (`/repo`, or VERIF_REPO for development), scratch directories (removed at the end),
  quiet logging, `PYTEST_CURRENT_TEST` (the repository itself uses one thread and no process pools under tests; the code paths
  with pools are explored separately, with enumerated completion orders).
* `runner.py` - distributes cases over worker processes, with CPU and wall limits per case (a hang is a violation, not a hang of
  the check), collects violations, matches them against known-findings.json, writes replay files and evidence. A check stops
  enumerating after 300 failures. `run.sh <ID> --replay FILE` re-executes one case.
* `shim.py` - the native chunk-index module is not built here (its dependencies are only partly installed). All other checks use
  a Python stand-in, which C27 in turn compares with the real C++ code, compiled from the current tree: C27 is what binds the
  stand-in to the code.
* `jobs.py`, `world.py`, `space.py` - small real data collections, jobs on the real LocalStub, enumerators.

Evidence: `states`/`transitions` are counted by the harness as described per check; `distinct_outcomes` guards against vacuity
(the harness saw different behaviours); `caps` lists every bound that was hit by time (none on the unchanged tree).

### What a violation means

A check exits 1 only if the real code was executed and did something the property forbids, with the case written to
`replays/`; harness problems (an import that does not work, a hook that does not fit) exit 2. Checks look at behaviour through the
interfaces the parts use among each other (LocalStub, QueryResult, ChunkDistributor, MixteraServer over the wire, ...), never at source text.

## Properties
"""

NOTES = {
"C01": ("Layouts of up to 5 (thorough 7) samples over two data sets x two files, with the single-, multi-valued and two-property alphabets; mixtures with up to 3 keys and chunk sizes up to 4 (5). 2-3 pullers, preemption bound 2/1 (3/2).",
        "Exactly-once is a statement about all layouts and all interleavings of pullers; the tests pull a few fixed layouts from one process."),
"C02": ("All strings of up to 6 (8) samples as layouts, all integer mixtures of up to 3 domains; `distribute_by_ratio` separately on all small ratio vectors. Reference: remaining samples per domain; strict chunks are exact or absent, best-effort chunks redistribute in proportion and only what is missing.",
        "Redistribution errors show only when particular domains run out in a particular order."),
"C03": ("Topologies up to 2 groups x 2 nodes x 2 workers (3 in some directions), request sequences up to depth 7-9, local forked workers in every request order. Reference: positions per (group, node, worker) over one global fetch order.",
        "Purging of cached chunks and replica agreement depend on the order of requests of all nodes."),
"C04": ("Every enumeration order of the index x every transport x every mode, and a digest of the whole space recomputed by interpreters with 4 (8) different hash seeds.",
        "Reproducibility is a hyperproperty: two runs have to be compared, over all sources of nondeterminism."),
"C05": ("See rule. Residual: the cached query being replaced while the persisting process is copying it is not explored (C09/C10 explore replacement at other points).",
        "The restored stream must be right for every reported position, not the one or two tests try."),
"C06": ("Topologies up to 3 participants, depth 6-8; concurrent reports as threads with preemption bound 2 (3). Known by design and not constrained: asking for the status of a checkpoint of an unknown job blocks up to 60 s.",
        "Barriers fail on particular orders of reports, duplicates and failures."),
"C07": ("Every file-system operation of the persisting process (and of the job) as crash point, plus torn writes and a full disk; up to 3 checkpoints; a second harness overlaps two checkpoints' persisting processes in all orders of their file operations up to a bound.",
        "No test crashes anything."),
"C08": ("All single conditions over the value alphabet, all pairs (reduced set in the quick tier), or-combinations, and all layouts of up to 5 (6) samples for the interval construction. Oracle: three-valued evaluation of the condition on the stored values.",
        "The SQL for lists, nulls and multi-valued properties interacts; one open finding (K01)."),
"C09": ("Histories of register/remove/execute/execute with another mixture/drain up to depth 5 (6), with hash collisions of the cache forced; concurrent pairs (execution with registration, removal, execution) with preemption bound 1 (2) over database and cache operations.",
        "Staleness and sharing between jobs need several operations in the right order."),
"C10": ("Every file-system call while the cache entry is written x five initial situations x {death, torn write, error}.", "No test crashes anything."),
"C11": ("All histories of registrations (valid, invalid, undecided), removals, restarts up to depth 4 (5); an error injected into each database call; death at each file-system operation of DuckDB; two concurrent operations in all schedules (bound 1/2); registrations with more files than one batch (2001), with errors at each of the last database calls.",
        "All-or-nothing is a statement about every failure point."),
"C12": ("JSONL, parquet, web-dataset, C4-like and crossaint layouts with up to 6 (8) samples; every list of disjoint ranges; single large files beyond internal batch sizes.",
        "Off-by-one errors at batch, row-group and file boundaries."),
"C13": ("All domain-size vectors with up to 7 (9) samples, all window sizes, modes, resume positions. Oracle: deficit of each domain in each window.", "Exhaustion of domains in the middle of windows."),
"C14": ("1-2 domains x 1-3 files x parallelism 1-3, all schedules up to preemption bound 2 (3), reader failures and deaths.", "Schedules."),
"C15": ("All text-length vectors (up to 4 texts of up to 3 (4) tokens), all sequence lengths and batch sizes; threaded iterator under all schedules up to bound 2 (3).", "Races between the filling and the consuming thread; carry-over at document boundaries."),
"C16": ("All sequences of up to 3 (4) items over values, falsy items, errors, ends; all schedules up to bound 2 (3).", "Schedules, and failures at every position."),
"C17": ("All compositions of messages of up to 13 (17) bytes, all fragmentations with up to 2 (3) cuts beyond, all truncations with closing, stalling and dripping peers.", "Fragmentation of TCP streams is not under the tests' control."),
"C18": ("All pairs of operations from 7 prefix states (thorough: triples in three of them), and every cut position class of requests and responses.", "Differential: the local client is the oracle."),
"C19": ("2-3 clients with preemption bound 1 (2); decisions at connections, request parts, loop iterations, worker-thread database calls. Oracle: the answers and final state of some sequential order.", "Schedules of an asynchronous server."),
"C20": ("All weight vectors on a grid (up to 4 domains) x chunk sizes up to 17 (64); hierarchical and inferred mixtures; exact rational arithmetic as oracle (largest remainder bounds, permutation independence).", "Rounding."),
"C21": ("All pairs of keys over up to three properties with subsets of values; mixture updates up to length 4 (5).", "Equality, hash and order of keys must agree on all pairs."),
"C22": ("All histories of length 5 (6) over requests and step/loss reports for 12 schedules and the dynamic algorithms; schedules that run out of data (length 6/8); single-entry schedules against the plain mixture; the training-side feedback handler. Whether the samples gathered for a chunk that a strict mixture then cannot complete are kept for a later mixture is left open (upstream drops them).",
        "Order and repetition of reports."),
"C23": ("All report sequences of length 3 (4) over six kinds of reports x 4 configurations x all variants; metamorphic references (permuted, padded, pickled, copied) and exact bookkeeping.", "Index bookkeeping when domains appear later."),
"C24": ("All index shapes with up to 3 (4) files; results after 0..n chunks through pickle, dill, cache and checkpoint files; all orders of the parallel loading tasks; wire values with cuts.", "Order of completion of worker processes."),
"C25": ("All layouts of up to 3 (4) files with up to 3 (5) lines, all batch sizes. Storing the calculated property is not implemented upstream, hence the property is stated up to the hand-over.", "Batch boundaries across files."),
"C26": ("All records over the alphabet per declared kind, all pairs for a selection (thorough: all) of schemas, file layouts with completion orders, more than 2000 files, the built-in parsers on enumerated documents.", "Combinations of type x multiplicity x nullability x position."),
"C27": ("All tables of 2-3 (4) rows per column type over a value alphabet x splits into batches x 1-3 (5) threads; all schedules of the real C++ threads at function granularity up to 2 (4) preemptions, and at fine granularity for selected tables (thorough). The compiled module is built from the current tree into a scratch directory (about 60 s, g++ -O1).",
        "Schedules, and arrow types the tests do not build."),
"C28": ("Topologies up to 2 groups/2 nodes/2 workers; checkpoint and restore in every state of the tree of worker steps; finishing workers line by line with bound 2 (3); real DataLoader with 0-2 (3) workers and Hugging Face data sets.",
        "Positions must be right in every state. Not constrained because the design does not define them: a data set without workers is for one epoch (leaving the iteration releases its segments); positions while a worker is fetching a chunk."),
}

TAIL = """
## Findings

All findings were shown on the real code by the named check. `fixed` entries are repaired by one `fix:` commit each in /repo and
suppress nothing; `open` entries are matched by the exact case key they list.

"""

OPEN_NOTES = """
Deliberately not repaired and not alarmed on, because the behaviour is a documented limitation or a design decision of the project rather than a
violation of a property as stated: adding a property does not store values (NotImplemented upstream); local multi-worker checkpointing
raises NotImplementedError; status queries about checkpoints of unknown jobs block until their time-out; samples gathered for an incomplete chunk of a
strict mixture are dropped; a Hugging Face data set without workers needs `split_dataset_by_node`, and reports no status after its end; an empty byte payload and none are the same message.

## Planted bugs

`seeded/<id>/` holds changes that break one property, compile, and pass the stable tests; each was written from the property's text
and the code, needs something specific to manifest, and has a demonstration that fails with it and passes without.
Result of the quick check of the property on the changed tree:

"""

LESSONS = """
Checks strengthened because a planted bug got past them: C22 (new harness `dry`: mixtures that run out of data before the mixture changes), C11 (new harness
`bulk`: more files than one batch; C26 had it, C11 did not).

## Running

`./setup.sh` only verifies the tools; `./run.sh C07 --tier quick|thorough`, `--only HARNESS`, `--replay FILE`, `--jobs N`.
`tools/repotests.sh` runs all of the repository's own tests with the stand-in for the native module (323, of which the stable list has 155).
All checks together take about 25 minutes (quick, 8 cores).
"""


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "TECHNIQUE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    out = [HEAD]
    for line in open(f"{V}/properties.jsonl"):
        p = json.loads(line)
        c = consts(f"{V}/checks/{p['id'].lower()}.py")
        bounds, why = NOTES[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n*Deciding method:* {c['TECHNIQUE']}.\n\n*Explored:* {c['RULE']}.\n\n*Bounds and oracle (thorough in parentheses):* {bounds}\n\n*Beyond the tests:* {why}\n\n*Assumptions:*")
        out += [f"- {a}" for a in c["ASSUMPTIONS"]] + [""]
    out.append("No property is listed under not_applicable: all are decided by exhaustive exploration.\n")
    out.append(TAIL)
    for f in json.load(open(f"{V}/known-findings.json"))["findings"]:
        out.append(f"- {f['id']} ({f['status']}, {f['property']}{', ' + f['commit'] if f.get('commit') else ''}): {f['what']}")
    out.append(OPEN_NOTES)
    out.append("| planted bug | property | needs | detected by |\n|---|---|---|---|")
    res = json.load(open(f"{V}/tools/seeded_results.json"))
    for d in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        out.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
    out.append(LESSONS)
    open(f"{V}/DESIGN.md", "w").write("\n".join(out))


main()
