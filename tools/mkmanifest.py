#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (which check decides what is said here)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
HOW = {
 "C01": "runtime monitoring: online comparison of root result and probe events with an independent reference interpreter of the grammar",
 "C02": "runtime monitoring: probe parsers record the context after every failed branch; oracle with persistent node lists; alternatives replaced by nothing must give the same result",
 "C03": "runtime monitoring: greedy/all-or-nothing repetition oracle over recorded rounds, bounds enumerated in a small scope plus stress sizes",
 "C04": "runtime monitoring: assertions placed at every position, context compared before/after, truth compared with running the body itself",
 "C05": "runtime monitoring with injected faults: errors raised at every reachable point; call log after the error and error identity checked",
 "C06": "runtime monitoring: every code point and byte run through every character matcher against an independent predicate",
 "C07": "runtime monitoring: position/length/token monitor over every node, recorded spans re-read from the source",
 "C08": "runtime monitoring: call-log monitor (probe parsers, predicates, transformers) against the reference interpreter's call log: order, count, arguments",
 "C09": "runtime monitoring: every callback's context watched for source and user tag, nested production rules included",
 "C10": "runtime monitoring: object-sequence parses compared with a direct model of the matchers over slices",
 "C11": "runtime monitoring: stack-transformer results compared with list algebra; input nodes watched for mutation",
 "C12": "runtime monitoring: conversion transformers compared with math/big and unicode oracles, panics recorded",
 "C13": "runtime monitoring: number recognisers compared with an independent grammar scanner at every start",
 "C14": "runtime monitoring: boundary parsers at every position of texts from every code point, against an independent word predicate",
 "C15": "runtime monitoring: date/time recognisers and converters against independent calendar arithmetic (every day of years 0-9999)",
 "C16": "runtime monitoring: production rules against an independent reduction interpreter; probe log of rules and rewrites",
 "C17": "runtime monitoring: Go race detector plus differential monitor of concurrent and solo outcomes under injected delays, from the first use on",
 "C18": "runtime monitoring: history independence - repeated, interleaved, nested and aborted parses compared with a fresh machine; earlier results and sources re-read at the end",
 "C19": "runtime monitoring: recorded trace events checked for nesting, scope, numbers and context; outcomes compared with the untraced machine; injected panics",
 "C20": "runtime monitoring: Go race detector and checkptr under the tree walker; visits compared with a reference walk",
 "C21": "runtime monitoring: crash and hang monitor over hostile sources, deep nesting and large inputs, with race detector and checkptr",
 "C22": "runtime monitoring: line/column report compared with an independent position model at every offset",
 "C23": "runtime monitoring: node equality/copy functions checked against algebraic laws over generated nodes",
 "C24": "runtime monitoring: boxes driven by random operation sequences against a shadow store",
 "C25": "runtime monitoring: CSV reader/writer against an independent reader; round trip of generated tables",
 "C26": "runtime monitoring: CSV record mapping over generated struct types against a field-by-field model, destination watched on error",
 "C27": "runtime monitoring: formula evaluator against an independent recursive-descent evaluator and canonical postfix translator",
 "C28": "runtime monitoring: re-processing parser against a model of the node list around it, probes on both sides",
 "C29": "runtime monitoring: deferred and directly built machines compared, expansion events counted, deep and mutual recursion",
 "C30": "runtime monitoring: user-built parsers over the public base functions compared with the documented options",
 "C31": "runtime monitoring: the WebAssembly program run under node and digests of machine outcomes from js/wasm, 386 and amd64 builds compared",
}
NOTE = "Holds on the executions observed (counts in the evidence file), judged by an oracle written independently of the code; trusts that oracle, the Go toolchain and, where named, its race detector. Says nothing about executions the workload did not produce."
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks: the monitors observe through the library's own extension points (custom parsers, transformers, predicates), so the code under test is built as it is.", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": "bash /verif/run.sh " + p["id"], "thorough_cmd": "bash /verif/run.sh " + p["id"] + " thorough",
             "technique": HOW[p["id"]], "level": "exploration", "level_note": NOTE} for p in props],
 "not_applicable": [],
 "notes": "One Go program (harness/) is built from /repo's working tree for every run. known_findings.json lists findings and repairs; DESIGN.md explains."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
