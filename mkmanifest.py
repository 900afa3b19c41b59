#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
T = {
 "T01": ("crash, panic, hang and stack monitor over hostile workloads, optimised and unoptimised builds",
         "Every entry point, style, error and conversion runs on each text on a 2 MiB stack, panics caught per call, deaths and hangs seen by a parent process and confirmed on the case alone. Exploration: texts not generated are not covered."),
 "L01": ("differential monitor: reference lexer and table-free parser written from the specification",
         "Verdicts compared on all short token strings, systematic near-misses of each construct and random mutants. Trusts the reference grammar in harness/src/{lex,refparse}.rs."),
 "L02": ("differential monitor: reference lexer and parser of the type system grammar",
         "As L01, for schemas."),
 "A01": ("differential monitor: AST compared node by node with a reference parse",
         "Every field of every node is converted to a neutral tree and compared. Trusts the reference parser."),
 "A02": ("differential monitor: AST compared node by node with a reference parse",
         "As A01, for schemas."),
 "V01": ("differential monitor: literals decoded by an independent decoder",
         "All escapes, all code points that matter, all small indentation patterns, integer limits and random floats (against the standard library's correctly rounded parse). Trusts the reference decoder."),
 "X01": ("differential monitor: every AST position compared with an independent line and column count",
         "Trusts the reference lexer's positions."),
 "X02": ("differential monitor: error position and token against the viable-prefix oracle of the reference parser",
         "Trusts the reference parser's viable-prefix property; the shape of the message is read, not its wording."),
 "X03": ("message monitor: the unexpected token and the viability, by the reference parser, of what the message expects",
         "Only one of the expected tokens has to fit: the lists of the parser library hold others as well. Trusts the reference parser's viable-prefix property."),
 "X04": ("message monitor: the fault found by the reference lexer and decoder against what the errors of all entry points say",
         "The pieces quoted and the class of the fault are required, not the wording around them; parser and minifier must agree. Trusts the reference lexer."),
 "J01": ("metamorphic monitor: joined documents against their parts", "Needs no reference parser: AST, positions, prints, minified text and errors of the whole must be those of the parts."),
 "F01": ("round-trip monitor over four styles", "parse, print, parse, compare; the comparison is independent of the library's PartialEq."),
 "F02": ("round-trip monitor over four styles", "parse, print, parse, compare; the comparison is independent of the library's PartialEq."),
 "F03": ("program-built ASTs printed and read by the reference parser",
         "ASTs are built in code with arbitrary strings, numbers and structure; the printed text is judged by the reference parser, not by the library."),
 "F04": ("byte-for-byte comparison with an independent printer, node Display and idempotence monitors",
         "Trusts the reference printer as the statement of the layout."),
 "I01": ("metamorphic monitor: three renderings that differ in ignored text only", "Needs no reference parser: verdict and AST of the renderings must agree."),
 "M01": ("minifier output compared with the reference token sequence, re-parsed and re-minified", "Trusts the reference lexer."),
 "C01": ("history monitor: definitions consumed one by one against the whole parse", "The remainder is checked to be the exact suffix slice."),
 "D01": ("depth monitor: nesting around the limit and long sequences, in every entry point", "Trusts the reference depth count."),
 "G01": ("metamorphic monitor over &str, String, Cow and a user-defined text type", "Slices are checked to lie in the source text by address."),
 "S01": ("AddressSanitizer, MemorySanitizer, Miri and an allocation-accounting monitor over detach and free histories",
         "Sanitizers see the executions run under them; Miri the fewest. The native phase counts every allocation."),
 "H01": ("history monitor across orders, threads, addresses and processes, with ThreadSanitizer",
         "Digests of results are compared between histories; TSan watches the shared use."),
 "W01": ("growth monitor: time and peak screening at two sizes, confirmed by valgrind instruction counts",
         "Clocks only nominate; instruction counts and allocator peaks decide. Bounded to texts of 768 KiB."),
 "Q01": ("pair monitor: == and clone against an independent comparison of the two ASTs, node by node",
         "Pairs are an accepted document and its one-token variants, so most differ in one detail only; numbers, positions, styles and constructors are sampled. Trusts the conversion of ASTs to traces."),
 "N01": ("system call filter (seccomp) and monitors of the process's state around every call",
         "On the calling thread anything but memory, locks, clocks and random numbers is trapped and reported; buffers of the standard streams, environment, panic hook and floating point mode are compared. Without seccomp (not on this system) threads and descriptors are counted instead."),
 "E01": ("exhaustive monitor over the locations, all near-miss names and random strings", "The 19 locations are covered completely, the other strings by sampling."),
}
GUIDED = "T01 L01 L02 A01 A02 V01 X01 X02 X03 X04 F01 F02 F04 I01 M01 C01 D01 Q01 N01".split()
for p in GUIDED:
    T[p] = (T[p][0] + "; workload led by coverage besides systematic and random ones", T[p][1])
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [{
   "property": p,
   "quick_cmd": "./check.sh " + p,
   "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
   "technique": t[0], "level": "exploration", "level_note": t[1],
 } for p, t in T.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: the monitors observe the public API from outside. See DESIGN.md; repaired defects are in KNOWN_FINDINGS.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
