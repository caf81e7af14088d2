#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))

V = "crates/rez-next-version/src/"
prop("V01", "Versions form one total order that equality, hashing and text agree with",
  "Any two versions compare one way only, the comparison is transitive, versions that compare equal are equal and hash alike, and so sorting or deduplicating any collection of versions gives the same result whatever its initial order. Tokens are compared left to right, digits by numeric value of any size, letters before digits, missing tokens as 0, with the empty version least and inf greatest. A version written as text or stored and read back is the same version, and no text makes parsing crash.",
  ["inputs"], "all pairs, triples and collections of version texts",
  "The tests compare a few dozen hand-picked pairs; an order breaks on particular combinations of token kinds, lengths and digit counts, and transitivity quantifies over triples.",
  [V+"version.rs"], [("ordering and hashing of parsed tokens", V+"version.rs compare_rez, compare_single_token, Hash")],
  "online reference-model monitor over generated versions", "Every comparison, hash, sort, prefix test and round trip of the real code on generated pools is judged by an independent model; explores, does not prove.")
prop("V02", "Version ranges are exact sets under union, intersection and difference",
  "A version range contains exactly the versions its text describes, and union, intersection, difference, overlap, subset, superset, any and empty answers are exactly those of the corresponding sets of versions. The text and the stored form of every range, including computed ones, read back to a range with the same members.",
  ["inputs", "histories"], "all pairs and chains of range expressions and all member versions",
  "Tests check a few ranges at a few versions; set algebra fails at interval boundaries and in combinations of alternatives that are not sampled.",
  [V+"range/mod.rs", V+"range/parser.rs", V+"range/satisfiability.rs", V+"range/types.rs"], [("range parsing and algebra", V+"range/")],
  "online set-model monitor at interval probes", "Membership and algebra of the real code compared with an independent set model at one probe version per elementary interval.")
R = "crates/rez-next-package/src/requirement/"
prop("R01", "A requirement admits exactly the versions and platforms its text states",
  "A requirement text is read as the stated package, flags, namespace, constraint and conditions, and admits a version exactly when each stated constraint holds, comparing as many tokens as the constraint names in the version order. Platform, architecture and environment conditions hold exactly when stated, combining two constraints admits exactly the intersection or union, and printing or storing a requirement and reading it back never changes what it admits. No text makes parsing crash.",
  ["inputs"], "all requirement texts, versions, platforms and environments",
  "Tests parse individual examples of each form; they do not cross forms with version shapes, conditions and print-reparse cycles.",
  [R+"parser.rs", R+"types.rs", R+"display.rs", "crates/rez-next-package/src/package/requirement.rs"], [("requirement parser and constraint matching", R)],
  "online reference-model monitor with round-trip checks", "Generated texts of every documented form; admissions judged by an independent model; forms whose meaning is not documented are counted as inconclusive.")
S = "crates/rez-next-solver/src/"
prop("S01", "A successful resolve satisfies every requirement and exclusion",
  "Whenever a strict resolve succeeds, the selection holds one existing version per package, every request and every requirement of each selected package and of its selected variant is satisfied, no excluded package or version is selected, weak requirements hold for packages that are present, pre-releases appear only when allowed, the selection has no dependency cycle and nothing unasked for is in it. In lenient mode nothing the request excludes is selected, every requirement left unsatisfied is reported as failed, and only those that nothing available meets together with the rest of the answer. Constraints and exclusions given with a request are honoured in the same way.",
  ["inputs", "configurations"], "all package universes, requests and solver settings",
  "Tests resolve small fixed universes; the failures appear when a constraint or exclusion is discovered after the package it affects was selected, or is withdrawn by backtracking.",
  [S+"dependency_resolver.rs", S+"resolution_state.rs", S+"solver.rs"], [("resolve loop, replacement and backtracking", S+"dependency_resolver.rs")],
  "offline checker of recorded resolves over random universes", "Each answer of the real resolver is re-checked clause by clause against the universe by an independent checker; completeness is not claimed.")
prop("S02", "A resolve gives the same answer every time",
  "For the same packages, request and settings, the selected packages, versions, variants and their order, the failed requirements, or the refusal, are the same on every run: whatever order the repository lists packages in, whatever was resolved before with the same resolver, and however many resolves run concurrently over the same repository.",
  ["schedules", "histories", "inputs"], "all listing orders, earlier requests and concurrent schedules",
  "A test compares one run with an expectation; dependence on hash seeds, listing order or an earlier request shows only across runs.",
  [S+"dependency_resolver.rs", S+"resolution_state.rs", "crates/rez-next-repository/src/simple_repository.rs"], [("iteration order and caches in the resolver", S+"resolution_state.rs")],
  "differential trace comparison across permuted and concurrent runs", "Answers across permuted listings, fresh hash seeds, reused resolvers and 8-way concurrent resolves are compared.")
prop("S03", "Every resolve ends",
  "Every resolve request, including ones over cyclic, contradictory or mutually exclusive package sets, returns an answer or an error in bounded time and never crashes.",
  ["inputs", "configurations"], "all package universes, requests and solver settings",
  "Termination quantifies over all universes; the loops need packages whose requirements exchange each other in a particular pattern.",
  [S+"dependency_resolver.rs", S+"resolution_state.rs"], [("resolve loop", S+"dependency_resolver.rs")],
  "watchdog monitor over adversarial universes", "A resolve over fewer than 120 package versions that does not return within 60 s counts as not ending.")
prop("S04", "The preferred versions are selected whenever they work together",
  "When the newest version (or the oldest, if so configured) that the request itself admits of every package needed forms a consistent selection, the resolve answers with exactly that selection, and marks exactly the packages the request names as requested. Between variants that ask for equally many packages, the one whose packages the request names is used, or else the first listed.",
  ["inputs", "configurations"], "all package universes whose variants ask for packages of their own, requests and preference settings",
  "Tests check a handful of two-version families; a preference slips when requirements interact or versions sort unusually.",
  [S+"dependency_resolver.rs"], [("candidate ordering", S+"dependency_resolver.rs filter_and_sort_candidates")],
  "reference-selection monitor over random universes", "Judged only where the preferred selection is consistent; other cases are counted as inconclusive.")
prop("S05", "A resolve backs off from a version that cannot work",
  "When one requested package has several versions and the direct requirements or exclusions of some of them cannot be met together with the rest of the request, a strict resolve answers with the most preferred version that does work, with nothing left over from the versions it tried, and refuses exactly when no version works.",
  ["inputs", "histories"], "all requests in which one package has a choice of versions and the packages it shares require nothing themselves",
  "Tests back off once in a fixed pair of packages; a search that stops early, forgets to lift a demand or rejects too much shows only in particular orders of requirements.",
  [S+"dependency_resolver.rs", S+"resolution_state.rs"], [("backtracking over dependency sources", S+"dependency_resolver.rs backtrack_dependency_source, backtrack_package")],
  "exhaustive-choice reference monitor over random universes", "The oracle tries every version of the one package that has a choice; the resolver's search is not complete for wider choices, and nothing is claimed there.")
EXTRA = []   # filled by later sections
try:
    exec(open("/verif/props_more.py").read())
except FileNotFoundError:
    pass
NA = []

def main():
    with open("/verif/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "bash /verif/run.sh build",
         "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']} quick", "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": "runtime monitoring: " + p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": NA,
         "notes": "No hooks in /repo: every monitor observes the public interfaces, the file system and child processes. All commits in /repo are fix: commits (KNOWN_FINDINGS.txt)."}
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
    open("/verif/MANIFEST.json", "a").write("\n")
main()
