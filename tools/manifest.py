#!/usr/bin/env python3
"""Generates MANIFEST.json from the rule modules present and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
AI = 'abstract interpretation of LLVM IR (relational, path-sensitive)'
CLAIMS = {
 'C01': (AI + ': geometry and page protection of blocks', 'proof', 'All paths of the central functions for every calling context, size, alignment and setting; nested calls of the central functions by their own contract. System calls may fail.'),
 'C02': (AI + ': congruence of returned addresses', 'proof', 'All paths, split by the relation of size, alignment argument and default alignment.'),
 'C03': (AI + ': ownership and protection of regions, record typestate', 'proof', 'One record at work against arbitrary others that satisfy the table invariant; each modified record is re-established before the lock is released.'),
 'C07': (AI + ': facts established before the first effect', 'proof', 'Release function for every family and context, and the resize function.'),
 'C14': (AI + ': sizes as unwrapped integers', 'proof', 'All interfaces and the central allocation function, sizes up to 2^64-1.'),
 'C22': (AI + ': zero-size requests per strategy', 'proof', 'All strategies and contexts.'),
 'C04': (AI + ': conservation of counters against record changes (ghost differences)', 'proof', 'All paths of the central functions in every calling context; nested central calls by their own contract; agreement modulo 2^64 for counters of that width.'),
 'C15': (AI + ': must-happen block fills', 'proof', 'All sizes, fills and paths of the central allocation function; fill argument of every entry point; gained bytes of the resize function. Bytewise loops instead of memset are not recognised.'),
 'C05': (AI + ': lock/table typestate', 'proof', 'All paths of all public entry points of the listed build configurations; loops by widening, system-call failures included. Trusts clang, the IR reader and the transfer functions.'),
 'C06': (AI + ': lock state machine, inductive invariants', 'proof', 'One thread against an arbitrary environment that respects the inferred lock invariants; mutex and atomics of the platform trusted.'),
 'C08': (AI + ': family tags of entry points, release/allocate pair matrix', 'proof', 'Every entry point and every tag pair on the release function.'),
 'C11': ('call-graph closure over LLVM IR with an allow-list; abstract interpretation of the formatter (bounded writes)', 'proof', 'Functions reachable from the report, lock and paging code; buffer bound for every format and argument.'),
 'C16': (AI + ': event order and lengths of the resize function', 'proof', 'Central allocation/release functions and memcpy are events with their own contracts.'),
 'C17': (AI + ': string ghosts (position of the first zero byte), next byte to be written, order of reads and writes', 'proof', 'All seven functions, every pointer, length and relative position. Arguments are assumed valid for the standard function; a copy of a region onto itself is not counted as overlap; where an overlap destroys nothing still to be read, a string function need not report it.'),
 'C09': (AI + ': covered ranges of bytewise loops and block fills, summaries of the fill and compare functions', 'proof', 'Ranges relative to symbolic record fields; loops that step by one byte upwards. The frequency rule counts operations of the central functions; the scan is proved for all records.'),
 'C10': ('control-flow fixpoint (no return, report before end); abstract interpretation of the print, release and resize functions', 'proof', 'All paths; write() assumed to succeed.'),
 'C12': ('typed query over call sites and formatter IR; finite evaluation of the digit loop expression graph', 'proof', 'Every call of a report function in the listed configurations. Which of two like values a message names is decided for locations only.'),
 'C13': (AI + ': outcome of allocation per failure mode', 'proof', 'All system-call outcomes, modes and settings; a null for a full record list is left to C04.'),
 'C18': (AI + ': leak scan over the record table, location forwarding and recording', 'proof', 'Arbitrary record table; every entry point.'),
 'C19': (AI + ': every variable\'s conversions and stores, against the documented table', 'proof', 'Ranges of values are exact up to the conversion function; two documented settings that are never read are known findings.'),
 'C20': ('comparison of the macro tables produced by the real preprocessor; abstract interpretation of compiled witness programs', 'proof', 'Every name the headers replace, in the listed header sequences and configurations.'),
 'C24': (AI + ': lock balance and location record of the delete operators and of witness delete statements', 'proof', 'All delete operator forms; the macro through compiled witness statements.'),
 'C25': (AI + ' of compiled witness uses of the macros', 'proof', 'Witness uses with side effects for each macro and index type.'),
 'C21': (AI + ': argument and result forwarding; signatures of interposed names', 'proof', 'All interposed functions of the listed build configurations.'),
}
NA = {
 'C23': 'Completeness of initialisation for every first call depends on the order in which the dynamic linker, the C library and C++ static constructors of an arbitrary program call in; the source part that can be decided (state after initialisation agrees with the records: C04; settings: C19; lock use: C05) is claimed there.',
 'C26': 'Whether the processor and kernel deliver a fault for one particular access of an arbitrary program is not a property of the library\'s source; the source part (a whole inaccessible page in the right place) is C01.',
 'C27': 'Running time and memory cost over unbounded histories have no sound static bound in reach: they depend on the number of live and protected records and on kernel behaviour.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 sa/check.py %s quick' % i, thorough_cmd='python3 sa/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'sa\'); import build, ir, lin; print(\'ok\')"', checks=checks, not_applicable=na,
         notes='Static analysis only: every check compiles the current sources of /repo to LLVM IR in a scratch directory and analyses them; nothing of the library is executed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
