#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

D = 'src/duma.c'
prop('C01', 'An inaccessible page borders every allocation on the chosen side',
 'Every successful allocation of n>0 bytes is fully readable and writable, and a whole inaccessible page lies directly behind it (default) or directly in front of it (protect-below mode), with fewer bytes in between than the requested alignment. '
 'That inaccessible page, and everything else made inaccessible, belongs to the allocation itself, never to a neighbour, to the record table or to foreign memory.',
 ['inputs', 'configurations', 'histories'], 'all sizes, all power-of-two alignments, both protection sides, fresh and recycled regions of any size, every allocation entry point',
 'The tests allocate a handful of small sizes with the default alignment and cannot see the geometry of regions recycled from an arbitrary history.',
 [D, 'paging.h'], [('region layout arithmetic', D + ': _duma_allocate'), ('page protection', 'paging.h: Page_DenyAccess/Page_AllowAccess')],
 [('record', 'internalAddress/internalSize/userAddress/userSize/protAddress of one region', D + ': struct _DUMA_Slot')], ['mprotect/mmap arguments', 'returned pointer'])
prop('C02', 'Returned pointers have the alignment that was asked for',
 'Every successful allocation returns a multiple of the alignment requested, or of the default alignment when none is requested (of the largest power of two not above the size, for blocks smaller than the default alignment), whichever side is protected; requesting an alignment that is not a power of two is refused instead of silently giving another alignment.',
 ['inputs', 'configurations'], 'all sizes and alignments, all allocation entry points, both protection sides, fresh and recycled regions',
 'Only a few (alignment, size) pairs are exercised; alignment bugs show for particular residues of the size only.',
 [D, 'src/dumapp.cpp'], [('user address computation', D + ': _duma_allocate'), ('power-of-two test', D + ': _duma_allocate, _duma_posix_memalign')], None, ['returned pointer'])
prop('C03', 'Freed memory stays inaccessible and is not handed out while protected',
 'When protection of freed memory is in force, freeing a block makes its whole region, guard page included, inaccessible before the free returns; the region keeps its record, and neither it nor any address in it is given to another allocation until its protection has been lifted on purpose to stay below the configured limits or because memory ran out. '
 'When protection is disabled, or the limit has no room for the block, its region is handed back to the system or the pool, never left accessible under a record that says it is protected.',
 ['histories', 'inputs', 'configurations'], 'every interleaving of allocations and frees through any entry point, every protection limit, every allocation size',
 'Use-after-free detection depends on the complete history of frees and on limits being reached; the tests free a few blocks and never reach a limit.',
 [D, 'paging.h'], [('free path', D + ': _duma_deallocate'), ('lifting protection', D + ': reduceProtectedMemory'), ('reuse of regions', D + ': _duma_allocate')],
 [('record state', 'EMPTY / FREE / IN_USE / ALL_PROTECTED / BEGIN_PROTECTED', D + ': enum _DUMA_SlotState')], ['mprotect/munmap calls', 'record state'])
prop('C04', 'Memory statistics always equal what the record table says',
 'Every operation changes the number of unused records, the memory allocated and the memory held protected, as kept by the library, by exactly what it changes in the record table, so that outside of calls they always agree with it; the totals of allocations and deallocations only grow. '
 'Memory is only kept protected while the configured limit on protected memory allows it.',
 ['histories', 'inputs', 'fault_sequences'], 'all histories of allocations, frees, releases, failing system calls and reuse of regions',
 'Drift shows only after particular histories (limits reached, mmap failures, regions reused), and no test reads the statistics.',
 [D], [('bookkeeping', D + ': _duma_allocate, _duma_deallocate, reduceProtectedMemory, allocateMoreSlots')],
 [('counters', 'unUsedSlots, sumAllocatedMem, sumProtectedMem, numAllocs, numDeallocs', D + ': struct _DUMA_GlobalStaticVars')])
prop('C05', 'Shared state is touched only under the lock, with balanced lock and table access',
 'The record table and the statistics shared by all threads are read and written only while the calling thread holds the library lock and, for the table, while the table is accessible; nothing learned about the table before taking the lock is used afterwards. '
 'Every public call, on every path on which it returns, releases the lock as often as it took it and leaves the record table inaccessible exactly as it found it.',
 ['schedules', 'inputs', 'fault_sequences'], 'all thread interleavings, all paths through every public entry point, including failing system calls and zero sizes',
 'Races, a leaked lock, or a table left open occur on rare paths or schedules; the tests are almost all single-threaded and look at results only.',
 [D, 'src/sem_inc.c', 'duma_sem.h'], [('lock brackets', D + ': DUMA_GET_SEMAPHORE/DUMA_REL_SEMAPHORE'), ('table protection', D + ': Page_AllowAccess/Page_DenyAccess on allocList')],
 None, ['DUMA_get_sem/DUMA_rel_sem', 'mprotect on the record table'])
prop('C06', 'The library lock is a recursive mutual-exclusion lock',
 'The lock excludes other threads until its owner has released it as often as it took it; the owner can take it again without deadlock, and a thread that does not own it does not get in. The ownership information is changed only while the lock is held.',
 ['schedules', 'histories'], 'all threads, nesting depths and interleavings of acquire and release',
 'One multi-threaded test samples a few schedules; nested acquisition by one thread combined with contention is not covered.',
 ['src/sem_inc.c'], [('acquire', 'src/sem_inc.c: DUMA_get_sem/lock'), ('release', 'src/sem_inc.c: DUMA_rel_sem/unlock')],
 [('owner, nesting depth', 'who holds the lock and how often', 'src/sem_inc.c')])
prop('C07', 'Freeing or resizing anything but a live block is fatal and changes nothing',
 'Passing to any deallocation or resizing function an address that is not exactly the start of a live allocation (never allocated, inside a block, already freed) ends in a fatal report before any live block, its record or its protection has changed; so does freeing with a function that does not match the allocating one. A null pointer is accepted silently.',
 ['inputs', 'histories'], 'every address value, every combination of allocating and releasing function, any history',
 'Tests can only try a few wrong addresses; the mismatch matrix and the order of check and effect are not covered.',
 [D, 'src/dumapp.cpp'], [('lookup and checks', D + ': _duma_deallocate, slotForUserAddress'), ('pairing table', D + ': _duma_allocDesc')], None, ['fatal report', 'record state'])
prop('C08', 'Every entry point tags its memory with its own allocator family',
 'Each allocation and deallocation entry point identifies itself by its own family in the pairing check (C heap functions with free, scalar new with scalar delete, array new with array delete, member new likewise), so that matching pairs are accepted and any mixture of families is reported. The name shown in a report is the name of the function the user called.',
 ['programs', 'configurations'], 'every public allocation and deallocation function and operator, with and without source location, every pair of them',
 'There are over forty entry points and hundreds of pairs; the tests try a few of the matching ones.',
 [D, 'src/dumapp.cpp', 'duma.h', 'dumapp.h'], [('family argument', D + ' and src/dumapp.cpp: allocator argument of every entry point'), ('description table', D + ': _duma_allocDesc')])
prop('C09', 'Unused bytes around a block are filled at allocation and verified later',
 'Every byte of the accessible part of a region that is not part of the user block is filled with the configured pattern when the block is handed out, and every such byte is compared with the pattern when the block is freed, when it is checked explicitly, when all blocks are checked, and at the configured checking frequency; any difference is fatal. The pattern used for filling is the one used for checking.',
 ['inputs', 'histories', 'configurations'], 'all sizes, alignments, protection sides, positions of a corrupted byte, and any set of live blocks',
 'A corrupted byte at one particular offset of one particular layout must be noticed; tests corrupt at most one byte.',
 [D], [('fill', D + ': _duma_init_slack'), ('verify', D + ': _duma_check_slack, _duma_check_all_slacks, duma_check, duma_checkAll')])
prop('C10', 'Every detected error is reported and the program does not continue',
 'Whenever the library detects an error by the program (bad free, overlap, corrupted bytes, bad alignment, failed assertion) it prints a report on standard error first and then terminates the process; control never comes back to the caller of a function whose check failed.',
 ['inputs', 'programs', 'configurations'], 'every error-detecting path of every function, all report configurations',
 'Each error path would need its own dying test; few exist and none covers a termination function that could return.',
 [D, 'src/print.c', 'paging.h', 'src/sem_inc.c'], [('termination', 'src/print.c: DUMA_Abort, DUMA_Exit')])
prop('C11', 'Reporting never depends on the heap or stdio being intact',
 'Formatting and printing of reports, locking and page management use neither dynamic memory nor stdio streams, so that a report issued from inside the allocator, with the heap corrupt or the lock held, cannot recurse into it; every report is formatted within its fixed buffer, cut off when longer.',
 ['programs', 'inputs', 'histories'], 'every report, every value and string printed by it, any state of the heap',
 'Recursion from a report into the allocator shows only on rare error paths; buffer limits only for extreme arguments.',
 ['src/print.c', 'paging.h', 'src/sem_inc.c'], [('formatting', 'src/print.c: DUMA_vsprintf, DUMA_Print')])
prop('C12', 'Reports print the values they name',
 'In every report the values are of the types and in the number that the message consumes, and the formatter prints any such value as its exact decimal, hexadecimal or textual form.',
 ['inputs', 'configurations'], 'every message in the library, every value of every argument type (including 0, the largest, and negative ones)',
 'Messages are printed on error paths the tests never take; a mismatch only shows in the text or as a crash while reporting.',
 ['src/print.c', D, 'paging.h'], [('formatter', 'src/print.c: DUMA_vsprintf, sprintAddr, sprintLong'), ('messages', 'every DUMA_Print/DUMA_Abort/DUMA_Exit call')])
prop('C13', 'Failure to allocate is signalled as each interface promises',
 'When memory cannot be obtained the C functions return null (the posix interface its documented error code), throwing new raises bad_alloc after trying the installed new-handler, nothrow new returns null, and duplication and resizing functions fail without touching the source block. With the exit-on-failure option set the C functions end the program with a report instead; no interface ever uses or returns a half-made block.',
 ['fault_sequences', 'inputs', 'configurations'], 'every failing system call, every entry point, both settings of the option',
 'Needs system calls to fail at chosen points, in each entry point separately.',
 [D, 'src/dumapp.cpp', 'paging.h'], [('failure paths', D + ': _duma_allocate and wrappers; src/dumapp.cpp: operators new')])
prop('C14', 'Size arithmetic never wraps into a too small allocation',
 'For every requested size, element count and alignment, the block obtained has at least the number of bytes asked for, or the request fails; no product, sum or rounding of sizes wraps around or is narrowed on the way to the system.',
 ['inputs', 'configurations'], 'all values of the size, count and alignment arguments, up to the largest representable ones',
 'Overflow needs values near 2^31, 2^32 or 2^64 that no test passes.',
 [D, 'paging.h', 'src/dumapp.cpp'], [('size computations', D + ': _duma_allocate, _duma_calloc; paging.h: Page_Create')])
prop('C15', 'Fresh memory has the promised contents',
 'Memory from the zeroing allocation function reads as zero in all its bytes; all bytes of any other new block (duplicated strings excepted) are set to the configured fill value unless filling is switched off; the bytes a resized block gains are zero.',
 ['inputs', 'histories', 'configurations'], 'all sizes, fresh and recycled regions, every fill setting, every allocation entry point',
 'Tests check a few small blocks that come straight from the system (zero by nature).',
 [D], [('fill', D + ': _duma_allocate, _duma_calloc')])
prop('C16', 'Resizing keeps the contents and releases the old block exactly once',
 'Resizing a live block returns a new block whose first min(old size, new size) bytes equal the old ones, after which the old block has been freed exactly once; resizing to a null pointer allocates, and a failed resize leaves the old block alive and unchanged. No byte outside the old and the new block is read or written.',
 ['inputs', 'histories', 'fault_sequences'], 'all old and new sizes including zero, allocation failure at the critical moment',
 'A handful of (old, new) pairs is tested, never with a failing allocation.',
 [D], [('resize', D + ': _duma_realloc')])
prop('C17', 'Checked memory and string functions are exact and report exactly the overlaps',
 'The replacements of the standard copy and string functions produce exactly the standard result (same bytes written, terminator and padding included, same return value), touch no byte the standard function would not touch, and stop with a report when source and destination overlap so that the standard leaves the result undefined (for the string functions at the latest when writing would destroy bytes still to be read), never when they do not overlap.',
 ['inputs'], 'all pointers, lengths and relative positions of source and destination',
 'Overlap by a single byte, in either direction, or lengths above 2^32 are corner cases among unboundedly many inputs.',
 [D], [('functions', D + ': _duma_memcpy, _duma_memmove, _duma_strcpy, _duma_strncpy, _duma_strcat, _duma_strncat, _duma_strnlen, _duma_strdup')])
prop('C18', 'Leak reports list exactly the live user allocations with their origin',
 'At program exit, and whenever the report is asked for, every allocation made by the program and not yet freed is reported once, with the address, size and source location given when it was made; freed blocks and the library\'s own memory are not reported. Allocations made through the macros carry the caller\'s file and line, and double frees are reported with the location of the first free.',
 ['histories', 'programs', 'configurations'], 'every history of allocations and frees, every entry point with location',
 'Depends on the complete history and on each of the many entry points handing on its location; tests do not read the report.',
 [D, 'src/dumapp.cpp', 'duma.h', 'dumapp.h'], [('report', D + ': DUMA_delFrame, _duma_exit'), ('location', D + ': filename/lineno/fileSource of a record')])
prop('C19', 'Environment settings are read under their documented names and validated',
 'Each documented environment variable controls exactly its documented setting, values outside the documented range never take effect, and without the variable the documented default is in force.',
 ['configurations', 'inputs'], 'every variable, every value, set or unset',
 'Tests run with one environment; names and ranges of the others are never exercised.',
 [D, 'README.md'], [('settings', D + ': duma_getenvvars')])
prop('C20', 'Switching the library on and off by headers is symmetric',
 'Every name the library replaces in user code is restored by the switching-off header and redirected again by the switching-on one, each to the function of the same name and argument order; programs compile unchanged whether the library is enabled or compiled out, and then use the plain standard functions.',
 ['programs', 'configurations'], 'every program that includes the headers, in every sequence of switching on and off',
 'Tests include the headers in one or two ways; missing pieces only show in programs using the rarer names.',
 ['duma.h', 'noduma.h', 'dumapp.h', 'duma_hlp.h'], [('macros', 'duma.h, noduma.h, dumapp.h, duma_hlp.h')])
prop('C21', 'Standard names forward to the checked functions unchanged',
 'Every interposed standard function and operator has the standard signature, hands each of its arguments on unchanged and in place to the checked implementation, and returns its result.',
 ['programs', 'inputs'], 'every interposed function, every argument value',
 'Programs linked with the library call the standard names; the tests mostly use the macro names.',
 [D, 'src/dumapp.cpp', 'duma.h'], [('interposed names', D + ': malloc, calloc, free, memalign, posix_memalign, realloc, valloc, strdup, memcpy, ...')])
prop('C22', 'Zero-size requests follow the selected strategy',
 'A request for zero bytes gives what the selected strategy documents: a fatal report, a null pointer, one common inaccessible address, or a distinct inaccessible page of its own; all of these are accepted by the releasing functions, and operator new never returns a null pointer for it.',
 ['inputs', 'configurations', 'histories'], 'all strategies, all entry points, all releasing and resizing functions',
 'Only the default strategy is exercised.',
 [D, 'src/dumapp.cpp', 'README.md'], [('strategies', D + ': _duma_allocate, _duma_deallocate')])
prop('C23', 'The library initialises itself before first use, once',
 'Whichever public function a program (or its runtime, before main) calls first, the library is initialised completely before its state is used, initialisation takes effect exactly once, and settings, statistics and blocks made before or during it are not lost.',
 ['histories', 'programs', 'schedules'], 'every public function as first call, every nesting of calls during initialisation',
 'The order of constructors and first calls is a property of the user program; each test has one such order.',
 [D, 'src/dumapp.cpp'], [('initialisation', D + ': _duma_init, duma_init')], [('init_state', 'progress of initialisation', D)])
prop('C24', 'Delete statements keep their location bookkeeping balanced',
 'The macro that records the location of a delete statement takes the library lock once, records the location, and every delete releases it once and forgets the location, for scalar and array forms, with or without location, and for null pointers.',
 ['programs', 'schedules'], 'every delete expression, all operator forms, all threads',
 'An unbalanced lock shows as a deadlock only with a second thread.',
 ['dumapp.h', 'src/dumapp.cpp', D], [('delete macro and operators', 'dumapp.h: delete macro; src/dumapp.cpp: operator delete')])
prop('C25', 'Checked array accesses and assertions evaluate once and check first',
 'The checked array-element macro and the assertion macros evaluate each argument exactly once, check before the access is made, accept every index from zero to the last element and no other, and yield exactly the element addressed.',
 ['programs', 'inputs'], 'every use of the macros, all index values, negative ones included',
 'No test uses an index expression with side effects or an out-of-range index.',
 ['duma.h'], [('macros', 'duma.h: CA_REF, DUMA_ASSERT, CA_DECLARE')])
prop('C26', 'Accesses out of a block fault at the offending instruction',
 'A program that reads or writes the first byte beyond (or, in protect-below mode, before) a block is stopped by the hardware at exactly that access.',
 ['programs', 'inputs'], 'every program and access',
 'Tests make a few such accesses.',
 [D, 'paging.h'], [('page protection', 'paging.h')])
prop('C27', 'Allocation cost and table growth stay proportionate',
 'The record table grows as needed without bound other than memory, and the time of each operation stays linear in the number of records.',
 ['histories'], 'all histories', 'Tests make few allocations.', [D], [('growth', D + ': allocateMoreSlots')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
