#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after edits)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": (SIM + "seeded histories of texts into one interpreter through every entry point of the library and through the tool's own main; the simulator owns readers (pieces, errors at any rune), script files, standard input, the refusing outside world, the end of the process and the step budget of the VM; oracle: every call returns a value or an error: no panic, no exit, no death of the process, no call that neither returns nor counts steps",
            "Seeded search over texts, entry points and reader faults. Excluded: explicit exit, waiting on channels, memory exhausted by the script's own growing data, quadratic work on very long flat texts."),
    "C02": (SIM + "the program's host is simulated (replies, errors, panics, call-backs at seeded calls); oracle: lockstep comparison of value, error, effect history and every binding with a direct reference evaluator",
            "Seeded search over programs, host behaviours and failure points; no exhaustive claim. Trusts the reference evaluator, written from the documentation."),
    "C03": (SIM + "seeded histories of closures made, shadowed, stored, kept by the host and called back later from inside and outside evaluations, with injected failures; oracle: reference evaluator with explicit scopes",
            "Seeded search over programs with one or two names per kind; no exhaustive claim. Trusts the reference evaluator."),
    "C04": (SIM + "an interpreter as a server: seeded history of texts, loads, host calls and failures; oracle: idle-state invariant after each success, same forms apart/together, reachable-object and goroutine counts under repetition",
            "Seeded search. Growth is judged by reflection over everything reachable from the interpreter. Trusts the reference evaluator and the list of idempotent texts."),
    "C05": (SIM + "fault injection at seeded points (host call errors and panics, failing forms at parse/compile/expand/run time buried under every construct); oracle: rest invariant, reference evaluator that ran only the prefix, fresh twin",
            "Seeded search over fault points and burials; no exhaustive claim. Trusts the reference evaluator."),
    "C08": (SIM + "every sandbox configuration, and the command-line tool under -sandbox, inside a simulated outside world: the kernel behind Go's syscall package, the environment, process start and process exit are decided by the simulator, which refuses with seeded errors (ENOENT, EACCES, EIO, ENOSPC, EPERM) or pretends to succeed with canary data; seeded texts reach for every bound name and every word of the library's sources by 31 routes; invariant: nothing reaches the world",
            "Seeded search over programs; no exhaustive claim. Trusts that the library reaches the outside only through Go's syscall and os packages (it has no assembly or cgo of its own)."),
    "C09": (SIM + "per-step measurement of all stacks while seeded tail-recursive functions run at two depths; lockstep comparison with a reference evaluator without tail calls, closures of every iteration kept by the simulated host",
            "Seeded search over shapes of tail position; depth up to 3000 levels, growth judged between depths. Trusts the reference evaluator."),
    "C10": (SIM + "seeded histories of a script and a Go host exchanging records and structs; injected: failing and panicking factories and methods, unknown fields, values of the wrong kind at any depth; oracle: a model of the records builds the Go value each has to convert to (fields and sharing), and what comes back is compared with the Go value",
            "Seeded search over histories and field contents of the demo structs and six harness structs; no exhaustive claim. Trusts the record model (c10.go). A time in a struct handed back is a known finding."),
    "C13": (SIM + "seeded transport (chunking, queued pieces, empty resumes, reader failures, abandoned conversations) between text source and the real parser/lexer/REPL; oracle: whole-text parse, per-rune completeness known to the generator, fresh twin",
            "Seeded search over texts, cut points and conversation histories; no exhaustive claim. Trusts the generator's knowledge of what an unfinished prefix is and the structural dumper."),
    "C14": (SIM + "seeded operation histories with failing operations and host calls on aliased, cloned and decoded hashes; oracle: ordered-map model through every observer",
            "Seeded search over histories of up to 60 operations and adversarial key pools. Trusts the ordered-map model; mutation during a range loop is out of scope."),
    "C15": (SIM + "macros and templates inside seeded histories with host failures, nested expansion and call-backs; oracles: templates with holes cut out of known expressions must behave as the expression (value, error, effect history, bindings, interpreter at rest), reference substitution, the same form written out by hand in a second interpreter",
            "Seeded search over templates, holes and histories; no exhaustive claim. Trusts the reference evaluator's substitution."),
    "C16": (SIM + "argument effects are calls to the simulated host, some failing; lazy arguments are forced at seeded moments, also by host call-backs after their caller returned; oracle: value, error, effect history and bindings against a reference evaluator, in which callers cannot know which formal is lazy",
            "Seeded search over routes, formals and forcing histories; no exhaustive claim. Trusts the reference evaluator."),
    "C17": (SIM + "seeded histories of struct declarations (good, bad, repeated), constructions and writes through every route (constructor, hset, dot paths, infix assignment, selectors, pointers, JSON and msgpack decoding, host API), rejected writes being the injected faults; oracle: a model of typed records compared with everything reachable from every variable after every step",
            "Seeded search over histories; no exhaustive claim. Trusts the record model (c17.go). Element writes into a slice held by a field are a known finding and not generated."),
    "C18": (SIM + "seeded histories over packages of seeded shapes reached into by every route, with injected host failures; oracles: lockstep with a reference evaluator that knows each member's visibility; unique markers in all members (nothing outside may show or change a private one) and a model of all members",
            "Seeded search over programs; no exhaustive claim. Trusts the reference evaluator. Paths to names a package does not have are left open where they show what encloses it."),
    "C19": (SIM + "seeded interleaving of interning and generation over a family of interpreters sharing one symbol table, with injected failures; oracle: one name/number bijection",
            "Seeded search over interleavings of up to six members; members are used one at a time, as the code requires."),
    "C20": (SIM + "the simulator owns Go's map iteration and hash seeds (runtime overlay) and the process: the same program runs in fresh interpreters, under many map seeds, before and after seeded other histories, and in other processes; oracle: byte-equal values, printed output, error texts and bindings",
            "Seeded search over programs, map seeds and histories. Excluded as in the statement: random, time and pointer-printing functions (among them dump, which prints Go internals)."),
}
NA = {
    "C06": "The translation of one infix block is a pure function of its tokens: no schedule, clock, I/O, history or second party whose nondeterminism a simulator could own. Deciding it needs differential input generation, another family. (Infix blocks do occur in the simulated programs of C02-C05, C14 and C17, but that does not decide C06.)",
    "C07": "Comparison and arithmetic on two operands are pure functions of the operands; nothing to schedule and no fault that could change the outcome.",
    "C11": "encode-then-decode of one value is a pure function of the value with no I/O, interleaving or state in between; a torn or corrupted byte string is outside the property (which is about decoding what was encoded).",
    "C12": "Printing and reading back one value is a pure function of the value. (Its stateful neighbour, parsing independent of chunking and history, is C13 and is claimed.)",
}
PENDING = ["C02", "C03", "C04", "C05", "C08", "C09", "C10", "C15", "C16", "C17", "C18", "C20"]

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "bash bin/build.sh",
    "hooks": {
        "guard": "Go build tag verif (zygo/verif_on.go; without the tag zygo/verif_off.go gives empty inlined functions)",
        "enable": "bin/build.sh builds /verif/sim with 'go build -tags verif' against /repo's working tree (replace directive in a -modfile copy)",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
    "notes": "bin/check.sh PROPERTY [quick|thorough]; bin/check.sh replay FILE re-executes a replay file. See DESIGN.md.",
}
for p in sorted(CHECKS):
    tech, note = CHECKS[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": "bash bin/check.sh %s quick" % p,
        "thorough_cmd": "bash bin/check.sh %s thorough" % p,
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
for p in sorted(NA):
    m["not_applicable"].append({"property": p, "reason": NA[p]})
for p in PENDING:
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": "not built yet: the simulation for this property is still being written"})
m["not_applicable"].sort(key=lambda x: x["property"])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
