"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("property-based testing: grammar-generated programs, exact product-bisimulation against a reference semantics",
            "Every generated program is compared for all outcomes of all tests (exact product of reference and compiled "
            "transition systems); programs themselves are sampled. Trusts the reference semantics in vlib/refsem.py."),
    "C02": ("property-based testing: random control-flow graphs, edited and plain compiler output, decompiled and recompiled; exact "
            "product-bisimulation of input and result",
            "Sampled routine sets; each compared on all paths. One known finding (opcodes that the language writes alike)."),
    "C06": ("property-based testing: random control-flow graphs and edited compiler output; decompile must end with text and source map, "
            "a fallback must recompile op for op",
            "Sampled routine sets; termination judged by a CPU time limit."),
    "C07": ("differential property-based testing: SsbScript printed by the decompiler, by an independent printer and as token soup, "
            "compared op for op",
            "Sampled routine sets, layouts and spellings."),
    "C05": ("property-based testing: generated multi-file macro projects against native inlining in the reference semantics",
            "Sampled projects; each compared for every test outcome. Trusts vlib/refsem.py."),
    "C04": ("property-based testing: generated parameter values printed by both decompilers at generated positions and depths and "
            "read back; generated literal spellings against an independent reader written from the specification",
            "Sampled values and positions. Trusts the literal readers in vlib/layout.py."),
    "C03": ("property-based testing: the closedness invariant checked on the results of generated programs, projects, grammar "
            "derivations, reshaped programs and SsbScript",
            "Sampled sources; the invariant is checked completely on each result."),
    "C08": ("property-based testing: generated programs and macro projects in random layouts; every emitted op paired with its source "
            "statement and expansion by the product walk, entries compared with the positions the printer recorded",
            "Sampled programs and projects; reachable ops compared exactly, jumps and unreachable ops for plausibility."),
    "C09": ("property-based testing: routine sets with a unique marker per op, decompiled; entries compared with the text cut into "
            "statements by an independent tokenizer and with the map of the recompiled text",
            "Sampled routine sets; every entry and every marked statement checked."),
    "C10": ("fuzzing: grammar derivations, mutated programs, soups, odd imports - only documented exceptions may escape; generated valid "
            "projects with one meaningless construct injected - must be rejected without output, also by the command line tool",
            "Sampled texts and injection places; termination judged by a CPU time limit."),
    "C11": ("stateful property-based testing: generated histories of compile and decompile calls (repeated, nearly equal and failing inputs, "
            "reused compiler, decompiler and op objects, projects edited between builds); every result against the same call in a fresh "
            "process with another hash seed",
            "Sampled histories of up to nine calls in long-lived processes; results compared byte for byte."),
    "C12": ("schedule fuzzing: generated inputs on two to six threads, switched at seeded line or bytecode boundaries, at chosen meeting "
            "places, or freely with a tiny switch interval; every result against the same call alone in a fresh process",
            "Sampled inputs and schedules; results compared byte for byte."),
    "C13": ("property-based testing: generated flat structured programs, compiled and decompiled; shape of the text: no fallback, no "
            "jump, every statement's unique marker printed exactly once",
            "Sampled programs (mostly up to five blocks per routine, `wide` up to 150 statements, 40 cases and 14 arms); the shape is checked completely on each text."),
    "C14": ("property-based testing: synthetic, compiled and decompiled source maps; round trip and a model of offset rewriting",
            "Sampled source maps and offset mappings."),
    "C15": ("property-based testing of the two commands: generated sources, projects, invalid sources and documents; printed document "
            "against a strict reader and the compiler's result, decompiled text product-bisimilar to the source's ops, exit status",
            "Sampled sources and documents; the commands run in forked children, a part of the cases as real processes."),
    "C16": ("metamorphic property-based testing: a generated program in two random layouts and spellings must compile equally",
            "Sampled programs and layouts, single files, macro projects and SsbScript."),
    "C17": ("fuzzing: generated sources, mutated sources and token soup through the lexer; conservation of text, termination, no error token",
            "Sampled texts; termination judged by a CPU time limit."),
    "C18": ("property-based testing: position literals at generated places and layouts, listed, compared with the tokens printed and the "
            "compiled parameters, edited in place and recompiled",
            "Sampled sources; each literal compared exactly, two edits per source."),
}
checks = []
for k, (tech, note) in sorted(T.items()):
    checks.append({"property": k, "quick_cmd": f"/opt/venv/bin/python check.py {k}",
                   "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {k}",
                   "technique": tech, "level": "exploration", "level_note": note})
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
na = [{"property": i, "reason": "no check built yet"} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
