#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
T = {
 'C01': ('exhaustive enumeration of signatures x valuations x backend pairs, executing the generated code against a reference model',
         'Bounded: all signatures over the alphabet of mc/sigs.py (1-3 parameters, every kind, plus long periodic words), every stub x skeleton pair of C, C untyped, C++, Rust and an independent reference codec, full product of value classes; copying and direct transport. Trusts gcc/clang/rustc and tests/c, tests/cpp, tests/src/object as runtime.'),
 'C02': ('exhaustive enumeration of signatures; every envelope on the wire compared with the reference model; all ways to reach 15/16/wrap-around per class',
         'As C01, oracle: op, counts word, section order and buffer sizes seen by the transport and accepted by the skeleton; methods beyond a limit must be rejected by every backend.'),
 'C03': ('exhaustive enumeration of signatures x valuations; bytes on the wire compared with an independent reference encoder',
         'As C01, oracle: every byte of every input buffer sent and output buffer returned equals the reference encoding (bundles, discrete buffers, blank handles).'),
 'C04': ('exhaustive enumeration of perturbed envelopes (counts, sizes, op-codes, missing optional methods) against every generated skeleton under guard pages',
         'Single and pairwise perturbations of every well-formed envelope of every enumerated signature; guard page after and canaries before every buffer; a well-formed call is replayed after each group of refusals.'),
 'C05': ('exhaustive enumeration of signatures x null/aliased object patterns x status codes with counted objects',
         'As C01, oracle: reference counts of all objects after each call (success and six error codes, with and without outputs written), destruction of the implementation exactly once.'),
 'C17': ('exhaustive enumeration of constant declarations (types x literals x forms x scopes); every generated constant evaluated in C, C++, Rust and Java and compared with the exact rational value',
         'All types x boundary, wrap-around and form variants of literals (all 8-bit values), file-level, own and inherited; oracle: exact rational arithmetic; widths and signedness asserted in each language; out-of-range literals must be rejected.'),
 'C09': ('exhaustive enumeration of programs (all single edits of base file sets, all cycles, duplicates, signatures and structs within bounds); an independent model of grammar and restrictions judges each, the compiler must refuse every invalid one',
         'Oracle: mc/lang.py, a PEG-faithful independent parser and rule checker; every invalid program must be refused by all backends (also with undefined behaviour allowed where that is irrelevant) and by the library entry. Constructs on which the statement is silent (16-byte alignment of object fields, reserved words) are not judged.'),
 'C10': ('exhaustive enumeration of programs as for C09; every program the model finds valid must be accepted by every backend and flag combination enumerated',
         'As C09: valid programs must be accepted, with output, by C (stub, skeleton, untyped), C++ (stub, skeleton), Rust and Java (except objects in structs), and the library entry; includes all orders and placements of declarations and both sides of all limits.'),
 'C06': ('exhaustive enumeration of struct declarations within bounds; every accepted one laid out by gcc, clang, g++, clang++ and rustc and compared with the declared layout; every rejected one must be one that has padding',
         'All field sequences over primitives, fixed arrays, nested structs and objects up to a length bound; sizes and offsets asserted by the compilers themselves, the transmitted size read off the generated stubs and skeleton guards; a struct whose natural layout has padding must be refused.'),
 'C07': ('exhaustive enumeration of interface hierarchies (member sequences x depth x backends); op-codes observed on the wire and in generated constants against a reference numbering',
         'All hierarchies up to a depth and member bound, with methods/constants/errors interleaved; oracle: base-most first, declaration order, consecutive from 0; duplicate or shared op-codes are violations.'),
 'C08': ('exhaustive enumeration of interface hierarchies with errors; every generated error constant evaluated and compared with a reference numbering',
         'As C07 for errors: values from 10 in ancestor-first declaration order, the same in C, C++, Rust and Java.'),
 'C11': ('exhaustive enumeration of programs within bounds; the stub and skeleton of every backend compiled together with generated conforming users by gcc, clang, g++, clang++, rustc and javac, warnings as errors',
         'Spaces (mc/checks/compile.py): the signatures of mc/sigs.py, parameter/member/declaration/constant/field names (all names of locals, members and types the generated code uses, pairs of parameters whose derived names meet, names shared by several roles), constants of every type and literal form, structs with and without objects, hierarchies in three placements, orders and references between declarations, include graphs, documentation and marking, sizes. Users call every stub, implement every method of every skeleton, use every constant. Typed and untyped C, C++ with and without namespaces, orders of inclusion. Names of the target runtime, standard library and prelude are not judged, nor are reserved words. 255 known findings, each one program in one language (name clashes, mutually dependent C++ classes, underflowing floats, a Java method beyond 64 KB).'),
 'C12': ('exhaustive enumeration of include graphs, search paths and file placements; the compiler\'s decision and the visible declarations against an independent resolver',
         'All include graphs up to a node bound, all assignments of candidate files to search directories, symbolic links, orders and repetitions of -I; oracle: independent reference resolver over canonical paths.'),
 'C13': ('exhaustive enumeration of location x working directory x path spelling x environment x hash seed x run history products; outputs compared byte for byte',
         'Full products within the bounds of mc/checks/determinism.py; hash seeds, clock and process id are controlled through an interposed getrandom/clock_gettime/getpid, so that each run order of hash containers is an explored schedule and not a sample.'),
 'C14': ('exhaustive enumeration of placements (every token gap x every trivia, every documentation placement, all marking texts up to a length) on base programs; outputs compared byte for byte or modulo comments',
         'Oracle: outputs identical for trivia; equal after removing comments for documentation, with the comment directly before the next method; marking is a pure prefix; the untyped flag changes only object spellings.'),
 'C15': ('breadth-first exploration of all append-only histories of base file sets within bounds; on every edge old and new generated code compared per method, and stubs of one revision run on skeletons of the other',
         'States are revisions (depth 2 quick, 3 thorough), transitions append any kind of member to any interface or any declaration at the start, middle or end of any file. Oracles: the definitions of every old method and error reappear token for token in C, C++, Rust and Java output (descendants of a grown interface excepted); C, untyped C, C++, Rust stubs of either revision interoperate with skeletons of the other on every value class; new methods on old skeletons fail without entering the implementation.'),
 'C16': ('exhaustive enumeration of inputs within bounds (all edits of base programs, token strings, boundary numerals and size products, growth in each direction, flag combinations); debug and release builds run on each and compared',
         'All byte insertions, replacements and range removals, token doublings, moves and replacements on two base programs; all words over a 36-word token alphabet up to length 3 (4 thorough); boundary numerals in all positions; nested array products around 2^16, 2^32, 2^64; nesting depth bounds in mc/checks/total.py. Oracle: ends in time, no signal, output or diagnostic, same decision and bytes of debug, release and (partly; thorough: everywhere) the opt profile. Two known findings: exponential and cubic time on nested structs.'),
 'C18': ('exhaustive enumeration of signatures x valuations x file arrangements; the generated Java proxies and skeletons executed over a recording transport against an independent reference codec',
         'Bounded: all signatures over the Java part of the alphabet of mc/sigs.py and the extras of mc/checks/javawire.py, in three arrangements of files; proxy alone, skeleton alone and joined; full product of value classes and errors. Oracle: the same reference envelope and bytes as for C. Objects in structs (not supported by the backend), outputs beyond their capacity and malformed requests are not judged; the Java runtime classes are a minimal stand-in for the proprietary ones.'),
 'C19': ('exhaustive enumeration of inputs x prior output states x every single injected fault point; whole-tree snapshots before and after each run compared with a reference model of the expected file set',
         'Faults (open, write, read, resolve) are injected at every call one at a time; rejected runs must leave the tree unchanged, accepted runs write exactly the modelled files in full with the banner. One known finding: Rust file names of interfaces that are equal but for case.'),
 'C20': ('stateless exploration (loom, dynamic partial order reduction) of all schedules of enumerated client programs over the generated Rust objects, compiled with their unmodified runtime against loom in place of std',
         'Client programs of two clients (up to 2 operations each, 3 in the thorough tier) and three clients, for 40 (thorough: 350) method shapes x own/inherited/optional; unbounded for shapes without objects, preemption bound 2-4 otherwise. Oracles: overlap, happens-before of all accesses to the implementation (loom cells), linearised effects, drop exactly once, after the last release, not during a body; poisoned quarantine for freed memory. Trusts loom\'s memory model (no load buffering).'),
}
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(check.__file__), 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks drive the unmodified command-line compiler and the code it generates', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in check.MODULES and i in T:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': 'model checking: ' + T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(os.path.join(os.path.dirname(check.__file__), 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
