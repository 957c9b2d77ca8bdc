#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 meta/props.py (run in /verif)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note, state=(), claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, state=state, claimed=claimed, reason=reason))

FC = ["filecheck/src/check/mod.rs", "filecheck/src/cursor.rs"]
MODEL = "property-based testing against an independent reference interpreter of the directive language, with shrinking"

prop("F01", "Ordered directives match exactly where they must",
  "For any check file made of plain, next-line, same-line, empty-line and counted directives and any input, filecheck reports success exactly when each directive in turn can be matched in the region its kind allows, starting at the end of the previous match and taking the leftmost match. On success every directive is reported exactly once (a counted directive once per repetition) at precisely that region of the input.",
  ["programs", "inputs"], "all sequences of ordered directives with literal and regular-expression patterns, over all inputs",
  "The tests compare a few dozen fixed check files with fixed inputs; the verdict depends on the interaction of cursor position, line boundaries and the pattern for every sequence of directives.",
  FC + ["filecheck/src/rules/", "filecheck/src/pattern/matcher/matchers/"],
  [("rule per directive kind", "filecheck/src/rules/*.rs"), ("cursor and search windows", "filecheck/src/cursor.rs"), ("group evaluation", "filecheck/src/check/mod.rs:check_group")],
  ["verdict of a verification run", "reported matches (pattern span, input span)"], MODEL,
  "random check files and inputs (guided by the input so that most directives match); verdict and all match spans compared with the model",
  [("cursor", "position in the input from which the next directive searches", "filecheck/src/cursor.rs")])
prop("F02", "Excluded patterns never appear in the region they guard",
  "filecheck reports success only if no excluded pattern occurs between the end of the positive match before it and the start of the positive match after it (or the end of the region); and an excluded pattern that occurs only outside that region never causes a failure.",
  ["programs", "inputs"], "all check files mixing exclusions with positive directives, over all inputs",
  "Needs every placement of exclusions relative to other directives and every placement of the excluded text relative to the matches; tests have a handful.",
  FC + ["filecheck/src/pattern/matcher/"], [("exclusion regions between matched groups", "filecheck/src/check/mod.rs:check_tree"), ("pattern set search", "filecheck/src/check/mod.rs:check_not")],
  ["verdict of a verification run"], MODEL, "as F01, with exclusions in most positions and excluded text planted inside and outside the guarded region")
prop("F03", "Unordered groups match each directive once, without overlap",
  "When a group of unordered directives succeeds, every directive of the group is matched by its own part of the input, no two of these parts overlap, all lie between the preceding and the following ordered match; directives which do not compete for the same text always succeed if each occurs in the region.",
  ["programs", "inputs"], "all groups of unordered directives in any context, over all inputs",
  "The number of relative orders and overlaps of matches grows factorially; four different matching strategies are selected by the shape of the patterns, and tests reach only a few shapes.",
  FC + ["filecheck/src/rules/dag.rs", "filecheck/src/pattern/visitors/", "filecheck/src/pattern/matcher/matchers/all.rs", "filecheck/src/pattern/search/"],
  [("strategy selection", "filecheck/src/pattern/matcher/matchers/all.rs"), ("assignment of matches to directives", "filecheck/src/pattern/visitors/"), ("ordering against the following group", "filecheck/src/check/mod.rs:check_group (Bounded)")],
  ["verdict of a verification run", "reported matches"], MODEL + "; the assignment chosen by filecheck is validated, not recomputed",
  "groups of literals, regexes, shared prefixes, duplicates; success is validated match by match, failure is refuted when the directives do not compete")
prop("F04", "Labels split the input into independent regions",
  "Label directives are matched first, in order; each directive between two labels is decided only by the input between the matches of those labels, so a failure or match in one region never depends on directives or text of another region.",
  ["programs", "inputs"], "all check files with any number of labels, over all inputs",
  "The region boundaries depend on positions of all labels and line structure; tests cover few label layouts.",
  FC + ["filecheck/src/check/mod.rs", "filecheck/src/parse/"], [("block discovery", "filecheck/src/check/mod.rs:discover_blocks"), ("cursor bounds", "filecheck/src/cursor.rs:set_bounds")],
  ["verdict of a verification run", "reported matches"], MODEL, "as F01 with several labels, exclusions and unordered groups between them")

CLAIMED_LATER = []
exec(open(os.path.join(here, "meta", "more.py")).read())

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./run setup",
        hooks=dict(guard="none", enable="no hooks: the checks use public APIs and the built binary only", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd=f"./run check {p['id']} quick", thorough_cmd=f"./run check {p['id']} thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="exploration", level_note=p["note"])
                for p in P if p["claimed"]],
        not_applicable=[dict(property=p["id"], reason=p["reason"] or "check not built yet") for p in P if not p["claimed"]],
        notes="All checks are generated-input searches against explicit oracles; see DESIGN.md. Known findings: known_findings.txt.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
