"""For each property the monitored workload units, what counts as one evaluation, and what must have been observed.

units: harness (in harness/), flavor (see lib/build.py), comps (components of /repo linked in), number of cases per tier,
shards (processes), weight (of 8 slots, for workloads that need real parallelism), mode/opts (arguments of the harness).
"""


def U(harness, flavor, comps, quick, thorough, **kw):
    d = dict(harness=harness, flavor=flavor, comps=comps, quick=quick, thorough=thorough)
    d.update(kw)
    return d


W = {}

W['P01'] = dict(
    units=[U('p01_ringbuffer', 'asan', 'none', 3000, 120000)],
    rule='One evaluation is one operation of a generated history after which the whole observable state is compared with the '
         'model; distinct by element type, capacity, fill level, length of the first contiguous block (wrap position) and operation.',
    technique='model-based runtime monitor (FIFO oracle) on generated histories under ASan+UBSan',
    note='Every operation of every generated history is judged by an online reference model; memory and UB errors by sanitizers.',
    min_obs={'obs.wrapped_states': 500, 'obs.overwrites': 500, 'obs.resizes': 300, 'obs.bulk_fills': 300})

W['P02'] = dict(
    units=[U('p02_time', 'asan', 'core', 2400, 120000)],
    rule='One evaluation is one generated pair of spans with a pair of stamps on which every operator and conversion is compared with '
         '128-bit integer arithmetic; distinct by signs, carries and borrows of every operation, and constructors used.',
    technique='runtime monitor with a 128-bit integer oracle on generated values under ASan+UBSan',
    note='Boundary-biased values (carry, borrow, zero, sign change, 32-bit limits), chains of operations on one object, clock readings bracketed.',
    min_obs={'obs.carries': 5000, 'obs.mixed_signs': 5000, 'obs.clock_reads': 1000})

W['P03'] = dict(
    units=[U('p03_calendar', 'asan', 'core', 1600, 60000, mode='exact'),
           U('p03_calendar', 'asan', 'core', 1200, 40000, mode='hostile'),
           U('p03_calendar', 'tsan', 'core', 48, 1500, mode='threads', shards=2, weight=3)],
    rule='One evaluation is one instant formatted and parsed every way and compared with independent calendar arithmetic, one '
         'hostile text, or one text made while other threads format; distinct by year modulo 400, month, month-end day, fraction length.',
    technique='runtime monitor with an independent calendar oracle, hostile input under ASan+UBSan, concurrent formatting under TSan',
    note='All years 1970-9999 with month-end and leap bias, seven time zones, every fraction length; concurrency judged by TSan and by the text.',
    min_obs={'obs.instants': 20000, 'obs.leap_days': 50, 'obs.reduced': 20000, 'obs.text_refused': 1000, 'obs.text_read': 1000, 'obs.concurrent_rounds': 40})

W['P04'] = dict(
    units=[U('p04_span_text', 'asan', 'core', 2400, 100000)],
    rule='One evaluation is one span printed and read back, or one span scaled by one factor; distinct by sign, units present, '
         'magnitude of span and factor.',
    technique='runtime monitor with an arithmetic oracle on generated values under ASan+UBSan',
    note='Printed text is parsed back term by term; scaling is compared with extended-precision arithmetic.',
    min_obs={'obs.printed': 20000, 'obs.scaled': 20000})

W['P05'] = dict(
    units=[U('p05_unionfind', 'asan', 'none', 3000, 80000)],
    rule='One evaluation is one comparison of the complete partition (all pairs, through representatives) with an explicit model; '
         'distinct by number of elements and number of classes.',
    technique='model-based runtime monitor (explicit partition) on generated histories under ASan+UBSan',
    note='Full partition compared after generated histories (chains, stars, random) of up to about 500 elements, after tournaments of up to 4096 elements and for chains of up to a million.',
    min_obs={'obs.partitions_compared': 3000, 'obs.refused': 500, 'obs.grows': 500, 'obs.large': 10, 'obs.tournaments': 200})

W['P06'] = dict(
    units=[U('p06_seqnum', 'asan', 'none', 2400, 80000)],
    rule='One evaluation is one pair (value, value advanced by d) judged on all six operators; distinct by type, kind of distance '
         '(0, 1, half-1, small, large), wrap, and value class.',
    technique='runtime monitor with an arithmetic oracle on generated values under ASan+UBSan',
    note='Twelve instantiations from 8 to 64 bit; boundary-biased values and distances.',
    min_obs={'obs.wraps': 1000, 'obs.compared_across_wrap': 1000})

W['P07'] = dict(
    units=[U('p07_strings', 'asan', 'core', 1600, 60000)],
    rule='One evaluation is one text split (and joined back), trimmed, padded, or one number converted; distinct by operation, number of fields, '
         'delimiter length, empty first/last fields, lengths of blank ends, width relative to length, numeric type and text length.',
    technique='runtime monitor with independent definitions of each helper on generated texts under ASan+UBSan',
    note='Texts are built around the delimiter (ends, repeats, overlaps) and around white space, bytes above 127 and NUL included.',
    min_obs={'obs.multi_splits': 3000, 'obs.trims_to_empty': 1000, 'obs.floats': 3000, 'obs.joins': 3000})

W['P09'] = dict(
    units=[U('p09_zip', 'asan', 'core', 1200, 30000), U('p09_zip', 'tsan', 'core', 150, 3000, mode='threads')],
    rule='One evaluation is one file zipped, judged by an independent decompressor and the injected fault; distinct by fault, size, kind of content, outcome.',
    technique='runtime monitor (independent gunzip, original compared) with injected device, limit and permission faults under ASan+UBSan',
    note='Faults: full device, file-size limit at every point, missing/unreadable/directory original, archive not creatable; contents include gzip files; 2-6 threads zip files of their own at once, also under TSan.',
    min_obs={'obs.lossless': 300, 'obs.failures': 200, 'obs.in_threads': 400})

W['P11'] = dict(
    units=[U('p11_keyvalue', 'asan', 'core', 1200, 40000)],
    rule='One evaluation is one query compared with std::map and std::regex entry by entry, or one lookup; distinct by query text and number of matches.',
    technique='model-based runtime monitor (std::map and std::regex) on generated histories under ASan+UBSan',
    note='Queries are generated expressions with groups, alternatives and repetition; rewinding at every position.',
    min_obs={'obs.visited': 3000, 'obs.rewinds': 500, 'obs.replaced': 500})

W['P13'] = dict(
    units=[U('p13_enum', 'asan', 'core', 1200, 40000)],
    rule='One evaluation is one string looked up through one of the four forms; distinct by form, outcome, list size, duplicates, kind of string, index.',
    technique='runtime monitor with a list oracle on generated description lists under ASan+UBSan',
    note='Lists are exact heap copies; strings are list entries, near misses and the end marker.',
    min_obs={'obs.found': 5000, 'obs.refused': 5000})

W['P14'] = dict(
    units=[U('p14_containers', 'asan', 'none', 1200, 40000)],
    rule='One evaluation is one operation after which the container is compared with its model; distinct by container, operation and size.',
    technique='model-based runtime monitors on generated histories under ASan+UBSan',
    note='Every cell, index and iterator compared after every operation.',
    min_obs={'obs.arrays': 5000, 'obs.zbuffers': 5000, 'obs.set_relations': 5000, 'obs.stacks': 5000, 'obs.bits': 5000, 'obs.zbuffer_resets': 100})

W['P15'] = dict(
    units=[U('p15_stamped', 'asan', 'core', 600, 20000)],
    rule='One evaluation is one stamped value built on dirty memory, copied and printed; distinct by constructor, defaults and lengths.',
    technique='runtime monitor on objects constructed in poisoned memory under ASan+UBSan',
    note='Every constructor on memory with random content, so that an unset member shows.',
    min_obs={'obs.stamped': 5000})

W['P16'] = dict(
    units=[U('p16_wrappers', 'asan', 'none', 900, 40000)],
    rule='One evaluation is one operation after which a wrapped vector or value is compared with its model; distinct by type, operation, size and position.',
    technique='model-based runtime monitors on generated histories under ASan+UBSan',
    note='All four wrapper macros, all derived containers; the whole content compared after every operation.',
    min_obs={'obs.vector_ops': 20000, 'obs.derived': 1000, 'obs.finalizable': 10000, 'obs.types': 1000, 'obs.small': 1000})

W['P17'] = dict(
    units=[U('p17_os', 'asan', 'core', 600, 20000)],
    rule='One evaluation is one group of calls compared with the system (result, errno, bytes around the buffer, files, clock readings around the call); '
         'distinct by function, truncation, signal and outcome.',
    technique='runtime monitor with the system\'s own functions and clocks as oracle, signals injected into sleeps, under ASan+UBSan',
    note='Buffers of exactly the announced size and with guard bytes; signals at varying moments of a sleep; concurrent threads and child processes.',
    min_obs={'obs.strings': 5000, 'obs.file_ops': 5000, 'obs.clock_reads': 5000, 'obs.sleeps': 1000, 'obs.interrupted': 5, 'obs.remainders': 1, 'obs.threads': 100})

W['P08'] = dict(
    units=[U('p08_scheme', 'asan', 'core', 1600, 50000)],
    rule='One evaluation is one text parsed by a new parser, a reused parser and the static form and compared with a hand-written recogniser; '
         'distinct by outcome, scheme, specifier, anchor and query shape.',
    technique='runtime monitor with an independent recogniser and a history-independence check under ASan+UBSan',
    note='Valid texts, near misses and junk; one parser object reads twelve texts in a row.',
    min_obs={'obs.accepted': 4000, 'obs.refused': 3000})

W['P10'] = dict(
    units=[U('p10_singleton', 'tsan', 'thread', 240, 6000), U('p10_singleton', 'plain', 'thread', 1600, 40000),
           U('p10_singleton', 'asan', 'thread', 80, 1600)],
    rule='One evaluation is one process in which 2-8 threads race for the first access to five singletons; distinct by thread count and access orders.',
    technique='ThreadSanitizer and construction-count monitor over racing first accesses in fresh processes',
    note='Each round is a new process; objects are checked for completeness by every thread, destruction counts after exit.',
    min_obs={'obs.first_access_rounds': 5000, 'obs.exits': 1500})

W['P12'] = dict(
    units=[U('p12_sha2', 'asan', 'none', 1200, 40000), U('p12_sha2', 'plain', 'none', 4, 8, mode='big', hang=120)],
    rule='One evaluation is one message hashed in one chunking; distinct by digest size, message length, reuse and length of the chunk list.',
    technique='runtime monitor with an independent FIPS 180-4 implementation on generated messages and chunkings under ASan+UBSan',
    note='Lengths around block and padding boundaries, pieces around block boundaries, all three overloads mixed, one message above 2^32 bits per size.',
    min_obs={'obs.messages': 5000, 'obs.reused_objects': 2000, 'obs.big_messages': 4})

W['P20'] = dict(
    units=[U('p20_attributetree', 'asan', 'config', 2000, 60000)],
    rule='One evaluation is one operation of a generated history on a forest of trees after which every node, order, parent, count, comment and '
         'change flag is compared with the model and three nodes are queried by path; distinct by operation and shape of the forest.',
    technique='model-based runtime monitor with allocation accounting on generated histories under ASan+UBSan',
    note='Names with numbers, comments, virtual file attributes, missing names and values; deletion is judged by counting the blocks the code allocated.',
    min_obs={'obs.copies': 500, 'obs.attached': 500, 'obs.renamed': 50, 'obs.found': 5000, 'obs.not_found': 5000, 'obs.leak_checks': 500, 'obs.many_names': 5})

W['P21'] = dict(
    units=[U('p21_attributetree_file', 'asan', 'config', 1200, 40000)],
    rule='One evaluation is one tree written and read back (and written again), one freely formatted set of files read, or one failing save or '
         'load; distinct by layout style, comments, order, root name, size, depth, number of included files, kind of fault.',
    technique='runtime monitor (tree model compared after a round trip, injected write faults) under ASan+UBSan',
    note='Covers both layouts at every change depth, comments, includes by relative, absolute and environment names, CRLF, unfinished last lines, full devices.',
    min_obs={'obs.round_trips': 3000, 'obs.rewritten': 800, 'obs.free_format': 1500, 'obs.includes': 300, 'obs.faults': 500})

W['P22'] = dict(
    units=[U('p22_attributetree_hostile', 'asan', 'config', 1200, 40000)],
    rule='One evaluation is one hostile set of one to three files read with random flags, walked, queried, printed, re-read and deleted; distinct by '
         'reader, flags, result, number of nodes and text size.',
    technique='hostile-input monitoring under ASan+UBSan with hang detection and structural checks of the resulting tree',
    note='Random bytes, format tokens in any order, over-long lines, deep nesting, unfinished comments, files that include each other in cycles, NUL bytes.',
    min_obs={'obs.read': 1000, 'obs.refused': 500, 'obs.files': 3000},
    assumptions=['Nesting below 1500 levels and at most 2000 subtrees per node: deletion and printing recurse.'])

W['P23'] = dict(
    units=[U('p23_filepath', 'asan', 'config', 1600, 60000)],
    rule='One evaluation is one generated path normalised (and taken apart), one existing file named with detours, or one text with '
         'environment references; distinct by path text, start directory, or by length and outcome of the replacement.',
    technique='runtime monitor with a lexical path model and the file system as oracles under ASan+UBSan',
    note='Paths of dots, double dots, empty parts and back slashes; existing files are compared by inode, also after chdir(); variables refer to each other and to themselves.',
    min_obs={'obs.with_dotdot': 5000, 'obs.objects': 5000, 'obs.real_files': 3000, 'obs.replaced': 1000, 'obs.unreplaceable': 200})

W['P24'] = dict(
    units=[U('p24_getopt', 'asan', 'config', 1000, 30000)],
    rule='One evaluation is one generated set of declarations with one to four command lines tried in a fresh process; distinct by declarations, '
         'arguments, strictness and cleanup.',
    technique='model-based runtime monitor of the parser on generated command lines, one process each, under ASan+UBSan',
    note='Compares options, prefix options, positional and extra arguments, the cleaned argument vector, retries after failures and a second initialization.',
    min_obs={'obs.accepted': 800, 'obs.refused': 150, 'obs.extras': 200, 'obs.prefix_options': 100, 'obs.cleaned': 50})

W['P25'] = dict(
    units=[U('p25_config', 'asan', 'config', 300, 10000)],
    rule='One evaluation is one generated configuration (files, includes, declared parameters, command line) initialised in a fresh process and read '
         'back completely; distinct by command line and main file.',
    technique='model-based runtime monitor (key-value oracle) of initialisation in one process per configuration under ASan+UBSan',
    note='XML with entities, CDATA, comments and mixed content, attribute trees, nested/missing/malformed/cyclic includes, parameters with defaults, overrides, malformed main files.',
    min_obs={'obs.initialized': 700, 'obs.refused': 40, 'obs.includes': 200, 'obs.cyclic': 20, 'obs.overlays': 500, 'obs.keys': 3000, 'obs.empty_values': 60, 'obs.short_defaults': 30})

W['P26'] = dict(
    units=[U('p26_values', 'asan', 'logging', 800, 40000)],
    rule='One evaluation is one text asked for as one type through get, getDefault, ConfigValue and ConfigValueDefault (or paramOpt, paramOptDefault '
         'and paramNonOpt); distinct by type, text, presence.',
    technique='differential runtime monitor (independent reading of the text) under ASan+UBSan',
    note='Ten types and enumerations; decimal, hexadecimal, octal, limits of every type, overflow, blanks, garbage; targets watched on failure; setValue/get round trips.',
    min_obs={'obs.values': 20000, 'obs.failures': 20000, 'obs.round_trips': 5000, 'obs.command_line': 5000},
    assumptions=['A number followed by other text, a negative number read as unsigned and denormal numbers are not judged.'])

W['P27'] = dict(
    units=[U('p27_observer', 'asan', 'config', 1500, 60000)],
    rule='One evaluation is one step (registration, change, file load, unregistration, deletion) of a generated history of observers, or one '
         'initialisation watched by observers; distinct by number of observers, registrations and keys, and the step.',
    technique='online trace monitor (registration model, calls due and seen per change) under ASan+UBSan',
    note='Observers unregister, delete and register others and change other keys while they are called; keys with regular expression characters; loads and initialisation.',
    min_obs={'obs.callbacks': 30000, 'obs.changes': 10000, 'obs.loads': 1000, 'obs.actions_in_callbacks': 2000, 'obs.nested': 300, 'obs.initializations': 200})

W['P28'] = dict(
    units=[U('p28_batch', 'asan', 'logging', 800, 30000)],
    rule='One evaluation is one batch read of up to five values and a list; distinct by kinds, presence and validity of the values, members of the '
         'list, number of elements, prefix, interface.',
    technique='model-based runtime monitor of targets and results under ASan+UBSan',
    note='Values, enumerations and defaults given as temporaries, lists with nested members, prefixes with regular expression characters, repeated reads, both interfaces.',
    min_obs={'obs.complete': 500, 'obs.incomplete': 500, 'obs.slots': 5000, 'obs.other_prefix': 200, 'obs.list_elements': 500})

SYNC = [p + s for p in ('pthread_mutex_', ) for s in ('lock', 'trylock', 'timedlock', 'unlock')] \
    + ['pthread_rwlock_' + s for s in ('rdlock', 'tryrdlock', 'timedrdlock', 'wrlock', 'trywrlock', 'timedwrlock', 'unlock')] \
    + ['sem_' + s for s in ('wait', 'trywait', 'timedwait', 'post')]


def S(harness, flavor, comps, quick, thorough, **kw):
    """A unit whose synchronisation calls are perturbed."""
    return U(harness, flavor, comps, quick, thorough, wrap=SYNC, extra_src=['mon_sched.cpp'], **kw)


W['P30'] = dict(
    units=[S('p30_mutex', 'plain', 'thread', 1600, 40000, shards=2, weight=3), S('p30_mutex', 'tsan', 'thread', 240, 6000, shards=2, weight=3),
           S('p30_mutex', 'asan', 'thread', 160, 4000, shards=1, weight=3)],
    rule='One evaluation is one contention history of 2-6 threads, one scenario of a holder and the attempts others make meanwhile, or one '
         'hand-over to waiting threads; distinct by the recorded order of events or by the attempts and timeouts.',
    technique='trace monitor of lock attempts and holders under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Plain, trial and timed attempts, recursion, scoped locks with injected failures, signals to waiting threads, delays before and after every synchronisation call.',
    min_obs={'obs.critical_sections': 20000, 'obs.failed_attempts': 1000, 'obs.timeouts': 500, 'obs.truth_rounds': 200, 'obs.handovers': 300, 'obs.perturbations': 1000, 'obs.long_waits': 1})

W['P31'] = dict(
    units=[S('p31_rwlock', 'plain', 'thread', 1600, 40000, shards=2, weight=3), S('p31_rwlock', 'tsan', 'thread', 240, 6000, shards=2, weight=3),
           S('p31_rwlock', 'asan', 'thread', 160, 4000, shards=1, weight=3)],
    rule='One evaluation is one contention history of 2-7 threads, one scenario of holders and the attempts others make meanwhile, or one hand-over '
         'to waiting threads; distinct by the recorded order of events or by the attempts and timeouts.',
    technique='trace monitor of lock attempts and holders under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Readers held together on purpose, every attempt kind against readers and writers, scoped locks with injected failures, signals to waiting threads.',
    min_obs={'obs.writes': 10000, 'obs.reads': 10000, 'obs.shared_readings': 200, 'obs.failed_attempts': 1000, 'obs.timeouts': 500, 'obs.truth_rounds': 200,
             'obs.own_attempts': 2000, 'obs.handovers': 300, 'obs.perturbations': 1000, 'obs.long_waits': 1})

W['P33'] = dict(
    units=[U('p33_spinlock', 'plain', 'core', 2000, 60000, shards=2, weight=3), U('p33_spinlock', 'tsan', 'core', 300, 8000, shards=2, weight=3),
           U('p33_spinlock', 'asan', 'core', 200, 4000, shards=1, weight=3)],
    rule='One evaluation is one contention history of 2-5 threads on one or two spin locks, or one scenario of a held lock and trials; distinct by the '
         'recorded order of events or by the scenario.',
    technique='trace monitor of lock attempts and holders under contention, with ThreadSanitizer and ASan+UBSan builds',
    note='Plain, trial and scoped locking mixed; a trial that waited would hang the scenario, which is reported.',
    min_obs={'obs.critical_sections': 50000, 'obs.failed_attempts': 1000, 'obs.truth_rounds': 200, 'obs.handovers': 50, 'obs.long_waits': 1})

W['P32'] = dict(
    units=[S('p32_semaphore', 'plain', 'thread', 1600, 40000, shards=2, weight=3), S('p32_semaphore', 'tsan', 'thread', 240, 6000, shards=2, weight=3),
           S('p32_semaphore', 'asan', 'thread', 240, 4000, shards=1, weight=3)],
    rule='One evaluation is one sequence of posts and waits, one history of posting and waiting threads, one set of blocked waiters, or one data pipe; '
         'distinct by operations, numbers of threads and permits, failures.',
    technique='permit-counting runtime monitor under perturbed schedules and signals, with ThreadSanitizer and ASan+UBSan builds',
    note='Both semaphore classes and the scoped semaphore; waiting threads are hit by signals; data passed through semaphores is watched by TSan.',
    min_obs={'obs.permits': 15000, 'obs.sequences': 300, 'obs.waiters': 600, 'obs.items': 20000, 'obs.scoped': 3000, 'obs.trials': 10000, 'obs.signals': 2000, 'obs.failed_attempts': 500, 'obs.long_waits': 1})

CREATE = SYNC + ['pthread_create']


def SC(harness, flavor, comps, quick, thorough, **kw):
    return U(harness, flavor, comps, quick, thorough, wrap=CREATE, extra_src=['mon_sched.cpp'], **kw)


W['P34'] = dict(
    units=[SC('p34_thread', 'plain', 'thread', 4000, 60000, shards=3, weight=2), SC('p34_thread', 'tsan', 'thread', 900, 12000, shards=2, weight=2, mode='tsan'),
           SC('p34_thread', 'asan', 'thread', 600, 8000, shards=1, weight=2, mode='asan')],
    rule='One evaluation is one life of a thread object with 1-6 starts, one series of waits that race with the end of the thread, 60 joined threads '
         'watched for what they leave, or one series of cancellations; distinct by kinds of runs and ends.',
    technique='online monitor of runs, states and process resources under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Both thread classes; ended before, during and after join; restarts, failed creations, destruction without join, cancellation; tasks, descriptors and address space counted.',
    min_obs={'obs.runs': 8000, 'obs.ended_before_join': 150, 'obs.waits_timed_out': 300, 'obs.waits_while_ending': 500, 'obs.failed_starts': 80,
             'obs.restarts': 150, 'obs.piles': 50, 'obs.piles_without_join': 15, 'obs.cancelled': 100, 'obs.early_stops': 500, 'obs.long_descriptions': 50})

W['P35'] = dict(
    units=[S('p35_periodic', 'plain', 'thread', 1200, 24000, shards=4, weight=1), S('p35_periodic', 'tsan', 'thread', 300, 5000, shards=2, weight=1, mode='tsan'),
           S('p35_periodic', 'asan', 'thread', 200, 3000, shards=2, weight=1, mode='asan')],
    rule='One evaluation is one periodic thread with a random period: its runs idle, overrun, with changes of the period from inside and from other threads, '
         'with signals, or with many starts; distinct by period, kinds of load and numbers of waits.',
    technique='online monitor of wake-up times against the monotonic clock under overruns, signals and period changes, with ThreadSanitizer and ASan+UBSan builds',
    note='Lower bounds are exact for every schedule; drift is judged only on runs without a gap of 1.5 periods. Positive periods only.',
    min_obs={'obs.wakes_judged': 8000, 'obs.period_changes': 300, 'obs.foreign_changes': 3000, 'obs.descriptor_checks': 80, 'obs.emulated_wakes': 200, 'obs.emulated_changes': 50, 'obs.slow_wakes': 60, 'obs.emulated_with_signals': 20})

W['P36'] = dict(
    units=[S('p36_active', 'plain', 'thread', 4000, 30000, shards=3, weight=2), S('p36_active', 'tsan', 'thread', 1000, 8000, shards=2, weight=2, mode='tsan'),
           S('p36_active', 'asan', 'thread', 1000, 8000, shards=2, weight=2, mode='asan')],
    rule='One evaluation is one active object with 1-4 runs in each of which 1-4 threads queue up to 40 operations each, which are drained or met by a stop; '
         'distinct by number of senders, runs, ends and dropped operations.',
    technique='offline checker of the execution log (exactly once, order per sender and between senders, destruction) under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Operations that sleep and that queue further operations; stop before, while and after sending; restarts; destruction of running objects.',
    min_obs={'obs.executed': 20000, 'obs.dropped': 500, 'obs.drained': 800, 'obs.queued_while_off': 500, 'obs.destroyed_running': 100, 'obs.idle_objects': 60, 'obs.stopped_at_start': 80})

W['P37'] = dict(
    units=[S('p37_dispatch', 'plain', 'dispatch', 1200, 24000, shards=4, weight=1), S('p37_dispatch', 'tsan', 'dispatch', 300, 5000, shards=2, weight=1, mode='tsan'),
           S('p37_dispatch', 'asan', 'dispatch', 300, 4000, shards=2, weight=1, mode='asan')],
    rule='One evaluation is one periodic dispatch thread with 1-3 runs and operations that are registered before the start, while it runs by two threads, and by operations; '
         'distinct by numbers of operations of each kind, runs and periods.',
    technique='offline checker of the execution log against the recorded registrations and the clock, with ThreadSanitizer and ASan+UBSan builds',
    note='Callback and derived operations; doubly registered operations; overruns; restarts; destruction of running threads.',
    min_obs={'obs.periods': 5000, 'obs.executions': 15000, 'obs.registered_while_running': 2000, 'obs.destroyed_running': 200, 'obs.empty': 60, 'obs.registered_meanwhile': 100, 'obs.quiet': 10})

W['P40'] = dict(
    units=[S('p40_delivery', 'plain', 'logging', 1600, 24000, shards=3, weight=2), S('p40_delivery', 'tsan', 'logging', 300, 5000, shards=2, weight=2, mode='tsan'),
           S('p40_delivery', 'asan', 'logging', 300, 5000, shards=2, weight=2, mode='asan')],
    rule='One evaluation is one run of up to 16 threads in up to 3 waves that write to 1-3 streams with 2-4 outputs, all logs compared afterwards; distinct by '
         'configuration and by the order in which the messages of the threads arrived.',
    technique='offline checker of delivery logs (exactly once, whole, per-thread and real-time order, connection windows) under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Worker-thread and synchronous outputs; outputs connected, disconnected, started late and restarted while threads log; messages of different levels left open and continued.',
    min_obs={'obs.written': 50000, 'obs.delivered': 50000, 'obs.windows': 1000, 'obs.late_starts': 100, 'obs.restarts': 100, 'obs.crowds': 100, 'obs.perturbations': 1000})

W['P41'] = dict(
    units=[U('p41_content', 'asan', 'logging', 5000, 120000, name='p41_content', shards=2),
           U('p41_content', 'asan', 'logging', 2000, 40000, defs=['-D_IC_DEBUG_', '-DLOGMON_LOCAL'], name='p41_content_debug')],
    rule='One evaluation is one delivered message compared with what was logged; distinct by way of logging, length of the text around its limit, which other '
         'fields exceed theirs, level, and by logging macro.',
    technique='runtime monitor of delivered messages (field-by-field comparison) under ASan+UBSan',
    note='Every text and location field from empty to beyond its limit, any bytes, in pieces, over several statements, by printf and by push; all logging macros in both build variants.',
    min_obs={'obs.messages': 8000, 'obs.cut_texts': 800, 'obs.statements': 10000, 'obs.disabled_statements': 2000, 'obs.without_location': 200, 'obs.nested': 3000})

W['P42'] = dict(
    units=[S('p42_levels', 'asan', 'logging', 1800, 24000, shards=3, weight=1), S('p42_levels', 'tsan', 'logging', 240, 5000, shards=2, weight=2, mode='concurrent'),
           S('p42_levels', 'plain', 'logging', 300, 8000, shards=2, weight=2, mode='concurrent')],
    rule='One evaluation is one message against one output; distinct by level of the message, stream and output, activation and outcome; in the concurrent runs one '
         'run, distinct by the sequence of changes.',
    technique='model-based runtime monitor of deliveries over histories of level changes, concurrent changes judged by overlap windows, with ThreadSanitizer and ASan+UBSan builds',
    note='Levels from the configuration, of outputs, of all streams, activation; while up to three threads log; the default output on standard output; level names.',
    min_obs={'obs.passed': 5000, 'obs.refused': 20000, 'obs.activations': 500, 'obs.global_changes': 500, 'obs.output_changes': 500, 'obs.while_changing': 200,
             'obs.default_outputs': 80, 'obs.names': 100})

CLOCK = ['gettimeofday', 'clock_gettime', 'time']

W['P43'] = dict(
    units=[U('p43_format', 'asan', 'logging', 4000, 60000, wrap=SYNC + CLOCK, extra_src=['mon_sched.cpp', 'mon_clock.cpp']),
           U('p43_format', 'tsan', 'logging', 160, 3000, wrap=SYNC + CLOCK, extra_src=['mon_sched.cpp', 'mon_clock.cpp'], mode='concurrent', shards=2, weight=2),
           U('p43_format', 'asan', 'logging', 200, 4000, wrap=SYNC + CLOCK, extra_src=['mon_sched.cpp', 'mon_clock.cpp'], mode='concurrent', shards=2, weight=2)],
    rule='One evaluation is one message rendered and compared with an independent renderer, or one run of threads that log and change the format; distinct by the first '
         'entries of the format (type, width, prefix) and empty fields, or by the sequence of formats seen.',
    technique='runtime monitor with an independent renderer on generated and hostile formats under ASan+UBSan, concurrent changes under TSan',
    note='Formats up to about 4000 characters, texts and prefixes around and beyond 100 characters, widths up to three digits; the clock is set by the harness, several time zones.',
    min_obs={'obs.rendered': 20000, 'obs.hostile': 2500, 'obs.default_format': 1000, 'obs.by_name': 1500, 'obs.concurrent_changes': 3000, 'obs.concurrent_lines': 5000, 'obs.long_fields': 3000},
    assumptions=['Fields are padded on either side, the alignment is not documented. Prefixes of fields other than class, object and function, and widths of more than three digits are not judged.'])

ZIPFAULT = ['gzopen', 'gzwrite', 'gzclose', 'rename']
W['P44'] = dict(
    units=[U('p44_files', 'asan', 'logging', 4000, 60000, wrap=CLOCK + ZIPFAULT, extra_src=['mon_clock.cpp']),
           U('p44_files', 'tsan', 'logging', 800, 8000, wrap=CLOCK + ZIPFAULT, extra_src=['mon_clock.cpp'])],
    rule='One evaluation is one comparison of the whole log directory with the model after a line, an opening or a closing; distinct by rotation, compression, deletion, '
         'number of other files, fault and fill of the log file.',
    technique='model-based runtime monitor of the log directory under a controlled clock, with failing rotations, under ASan+UBSan and TSan',
    note='Days go by (also backwards), sessions are repeated on the same directory, unrelated files, links and directories lie around, rotation fails in several ways. The directory appears late, the disk is full for a while (a size limit stands in for it).',
    min_obs={'obs.deleted': 2000, 'obs.kept_rotated': 5000, 'obs.kept_unrelated': 5000, 'obs.lines': 8000, 'obs.rotations': 4000, 'obs.loose_rotations': 1000, 'obs.sessions': 5000, 'obs.full_disks': 1000})

W['P45'] = dict(
    units=[U('p45_sqlite', 'asan', 'logging', 1000, 16000, wrap=CLOCK, extra_src=['mon_clock.cpp']),
           U('p45_sqlite', 'tsan', 'logging', 200, 3000, wrap=CLOCK, extra_src=['mon_clock.cpp'])],
    rule='One evaluation is one message whose row is read back from the database by a connection of its own, or one run of threads whose rows are all read back; '
         'distinct by quotes and empty fields, rotation, other users of the database, rows and databases there are.',
    technique='runtime monitor that reads every row back through its own connection, hostile contents, day changes, other users of the database, under ASan+UBSan and TSan',
    note='Contents with quotes, SQL text, placeholders and invalid UTF-8; several sessions on one file; the clock is set by the harness; other connections hold locks for up to 6 ms; a size limit stands in for a full disk.',
    min_obs={'obs.rows': 6000, 'obs.concurrent_rows': 6000, 'obs.rotations': 700, 'obs.other_users': 150, 'obs.sessions': 1500, 'obs.unusable': 100, 'obs.repaired': 40, 'obs.rotated_obstacle': 20, 'obs.full_disks': 100, 'obs.shared_databases': 120})

W['P46'] = dict(
    units=[U('p46_udp', 'asan', 'logging', 1600, 40000, wrap=CLOCK + ['getaddrinfo'], extra_src=['mon_clock.cpp']),
           U('p46_udp', 'tsan', 'logging', 400, 6000, wrap=CLOCK + ['getaddrinfo'], extra_src=['mon_clock.cpp'])],
    rule='One evaluation is one datagram received on the loopback interface, read by an SQL parser and compared with the message; distinct by quotes, backslashes and emptiness of the fields.',
    technique='runtime monitor on received datagrams with an SQL parser (SQLite) as oracle, hostile contents and server outages, under ASan+UBSan and TSan',
    note='Contents with quotes, backslashes, SQL text and invalid UTF-8 in every field; several threads; the server goes away and comes back.',
    min_obs={'obs.datagrams': 20000, 'obs.concurrent': 10000, 'obs.outages': 400, 'obs.long_datagrams': 250, 'obs.default_port': 80, 'obs.nowhere': 150})

W['P48'] = dict(
    units=[U('p48_values', 'asan', 'logging', 10000, 300000)],
    rule='One evaluation is one message of one value or of a sequence of values, compared with independently formatted text; distinct by type and text or by the sequence of types.',
    technique='runtime monitor with independent formatting on generated values of every type under ASan+UBSan',
    note='Limits of every type, all magnitudes of doubles with infinities and NaN, sequences beyond the maximum length, values across the edge of the buffer.',
    min_obs={'obs.double': 20000, 'obs.matrix': 20000, 'obs.spans': 20000, 'obs.printf': 10000, 'obs.truncated': 5000, 'obs.sequences': 10000, 'obs.thread': 300, 'obs.own': 300})

W['P47'] = dict(
    units=[S('p47_shutdown', 'plain', 'logging', 1200, 20000, shards=3, weight=2), S('p47_shutdown', 'tsan', 'logging', 300, 4000, shards=2, weight=2, mode='tsan'),
           S('p47_shutdown', 'asan', 'logging', 400, 6000, shards=2, weight=2, mode='asan')],
    rule='One evaluation is one life of a process with 1-4 rounds of initialisation, logging by up to 4 threads and shutdown; distinct by outputs, way of ending and numbers of messages.',
    technique='offline checker of delivery logs behind every shutdown, with thread and output counts, under perturbed schedules, with ThreadSanitizer and ASan+UBSan builds',
    note='Initialisation explicit, repeated, implicit and by LifeCycle; ends by shutdown, repeated shutdown, LifeCycle and the end of the program; messages still pending in worker threads; streams used behind the shutdown.',
    min_obs={'obs.delivered': 100000, 'obs.exit_judged': 100, 'obs.rounds': 2000, 'obs.pending_at_shutdown': 200, 'obs.late': 400, 'obs.lifecycle': 300, 'obs.init_implicit': 300, 'obs.own': 300})

W['P49'] = dict(
    units=[U('p49_connect', 'asan', 'logging', 3000, 60000), U('p49_connect', 'tsan', 'logging', 400, 6000)],
    rule='One evaluation is one situation of streams, levels and outputs in which messages of every stream and level were logged, all outputs being compared at the end; distinct by the connections and levels.',
    technique='model-based runtime monitor of which messages reach which output under ASan+UBSan and TSan',
    note='Generated configurations and command lines with unknown names, then histories of level changes, new and deleted streams, removed outputs, configure, initialisation again, shutdown.',
    min_obs={'obs.delivered': 100000, 'obs.log_level': 300, 'obs.quick_debug': 300, 'obs.op.configure': 1000, 'obs.op.remove_output': 300, 'obs.op.shutdown': 300, 'obs.op.delete_stream': 200, 'obs.to_none': 50000, 'obs.to_several': 20000, 'obs.printed': 1000, 'obs.std_outputs': 300, 'obs.std_lines': 2000})

W['P50'] = dict(
    units=[U('p50_perf', 'asan', 'perf', 2500, 60000, wrap=CLOCK, extra_src=['mon_clock.cpp']),
           U('p50_perf', 'asan', 'perf', 2500, 60000, wrap=CLOCK, extra_src=['mon_clock.cpp'], name='p50_debug', defs=['-D_IC_DEBUG_'])],
    rule='One evaluation is one printed statistic compared with the samples recorded; distinct by number of samples, median, maximum and kind.',
    technique='model-based runtime monitor of the printed statistics under a controlled clock and ASan+UBSan',
    note='Histories of timers, data, prefixes enabled and disabled, names never recorded, initialisation again.',
    min_obs={'obs.other_levels': 3000, 'obs.time_blocks': 10000, 'obs.value_blocks': 4000, 'obs.durations': 3000, 'obs.disabled': 10000, 'obs.static_values': 2000, 'obs.unknown_summaries': 2000, 'obs.disable': 500})

def _plugin(file, cls, base, ident, lib, *more):
    return (file, 'p51_lib.cpp', ['-DP_CLASS=' + cls, '-DP_BASE=' + base, '-DP_ID="%s"' % ident, '-DP_LIB=%d' % lib] + list(more))


PLUGINS = [_plugin('circle.so', 'Circle', 'Shape', 'circle', 1), _plugin('square.so', 'Square', 'Shape', 'square', 2),
           _plugin('line.so', 'Line', 'Shape', 'a line', 3), _plugin('square2.so', 'OtherSquare', 'Shape', 'square', 4),
           _plugin('red.so', 'Red', 'Colour', 'red', 5), _plugin('circle_c.so', 'ColouredCircle', 'Colour', 'circle', 6),
           _plugin('foreign.so', 'None', 'None', '', 7, '-DP_FOREIGN'), _plugin('unresolved.so', 'None', 'None', '', 8, '-DP_FOREIGN', '-DP_UNRESOLVED'),
           _plugin('noid.so', 'NoId', 'Shape', 'noid', 9, '-DP_PARTIAL=1'), _plugin('nobase.so', 'NoBase', 'Shape', 'nobase', 10, '-DP_PARTIAL=2'),
           _plugin('noload.so', 'NoLoad', 'Shape', 'noload', 11, '-DP_PARTIAL=3'), _plugin('null.so', 'NullLoad', 'Shape', 'null', 12, '-DP_PARTIAL=4')]

def T52(name, quick, thorough, *defs):
    return U('p52_timers', 'asan', 'perf', quick, thorough, wrap=CLOCK, extra_src=['mon_clock.cpp'], name=name, defs=list(defs))


W['P52'] = dict(
    units=[T52('p52_release', 720, 12000), T52('p52_debug', 360, 6000, '-D_IC_DEBUG_'),
           T52('p52_release_perf', 360, 6000, '-DIC_PERFORMANCE_MONITOR'),
           T52('p52_debug_perf', 360, 6000, '-D_IC_DEBUG_', '-DIC_PERFORMANCE_MONITOR')],
    rule='One evaluation is one operation of a scoped timer or one macro after which all logged messages are compared with the expected ones; distinct by operation, '
         'stream, state and number of live timers, and by macro.',
    technique='model-based runtime monitor of the logged messages under a controlled clock and ASan+UBSan, in all four build variants of the macros',
    note='Overlapping timers on two streams, clock standing still, running and set back; every macro form with and without debug levels and performance monitor.',
    min_obs={'obs.timers': 1000, 'obs.messages': 5000, 'obs.macros': 5000, 'obs.stopped_again': 200, 'obs.destroyed_stopped': 200, 'obs.perf_macros': 1000, 'obs.perf_summaries': 300})

W['P51'] = dict(
    units=[U('p51_plugin', 'asan', 'plugin', 1500, 40000, plugins=PLUGINS)],
    rule='One evaluation is one set of plugin directories with 1-3 lives of the managers of two interfaces; distinct by the files in the directories.',
    technique='model-based runtime monitor of offered plugins, living instances and loaded libraries under ASan+UBSan',
    note='Good plugins, two with one name, other interfaces, missing and failing entry points, files that are no libraries, links, pipes, nested directories, missing paths.',
    min_obs={'obs.requests': 1000, 'obs.created': 500, 'obs.lives': 2000, 'obs.errors_told': 1000, 'obs.good_plugins': 1500, 'obs.implicit_initialisations': 800, 'obs.unknown_requests': 3000, 'obs.static_requests': 50})

W['P53'] = dict(
    units=[U('p53_oldnames', 'asan', 'dispatch', 2560, 64000, shards=4, fallback=['-DP53_UNUSABLE'])],
    rule='One evaluation is one line of the transcript of a generated script which ran once with the old and once with the new names; distinct by call and result.',
    technique='differential runtime monitor (transcripts of the same generated script with old and new names) under ASan+UBSan',
    note='Eleven kinds of scripts over core, configuration, logging and threads, each run in processes of their own; values, exceptions, files and output are compared.',
    min_obs={'obs.old_calls': 80000, 'obs.new_calls': 80000, 'obs.core': 150, 'obs.directory': 150, 'obs.classes': 150, 'obs.time': 80, 'obs.tree': 240, 'obs.options': 150, 'obs.config': 150, 'obs.streams': 150, 'obs.manager': 150, 'obs.locks': 40, 'obs.threads': 40})

W['P54'] = dict(
    units=[U('p54_identity', 'plain', 'thread', 4000, 80000, shards=2, weight=2, rtprio=True), U('p54_identity', 'tsan', 'thread', 1000, 20000, shards=2, weight=2, mode='tsan', rtprio=True),
           U('p54_identity', 'asan', 'thread', 1000, 20000, shards=2, weight=2, mode='asan', rtprio=True)],
    rule='One evaluation is one random history of up to ten thread objects with 10-40 steps, or a dozen threads asked after they were joined; distinct by the states the steps met.',
    technique='online monitor: every thread is asked about every object, priorities are compared with those the operating system reports, with ThreadSanitizer and ASan+UBSan builds',
    note='Real-time priorities are exercised where the sandbox permits SCHED_FIFO; otherwise only priority 0 exists.',
    min_obs={'obs.self_questions': 40000, 'obs.self_questions_joined': 3000, 'obs.priority_changes': 1000, 'obs.priority_changes_elsewhere': 2500, 'obs.long_gone': 2000, 'obs.descriptions': 100000})

W['P55'] = dict(
    units=[U('p55_help', 'asan', 'config', 1500, 40000, shards=4)],
    rule='One evaluation is one generated set of declarations and one of six ways to get the help; distinct by declared names and way.',
    technique='model-based runtime monitor of the printed help of generated declarations, one process each, under ASan+UBSan',
    note='Judges the content line by line but not the layout: blanks, headings and the order of options are left open.',
    min_obs={'obs.options': 3000, 'obs.prefix_options': 500, 'obs.positional': 800, 'obs.by printHelp()': 100, 'obs.by --help': 100, 'obs.by an unknown option': 100, 'obs.by a missing value': 60, 'obs.by a missing parameter': 50, 'obs.defaults': 100})

W['P56'] = dict(
    units=[U('p56_start', 'asan', 'logging', 1200, 30000, shards=4)],
    rule='One evaluation is one process which is started by 1-3 entry points with a generated command line and file; distinct by arguments, entry points and outcomes.',
    technique='model-based runtime monitor of argument vectors, configuration and log files of generated starts, one process each, under ASan+UBSan',
    note='Eight entry points, cleaning and checking or not, unknown options and surplus words, missing and broken files that are repaired before the next start.',
    min_obs={'obs.first_use': 500, 'obs.logging_alone': 300, 'obs.again': 2500, 'obs.cleaned': 1500, 'obs.left_over': 900, 'obs.delivered': 7000, 'obs.dumped': 450, 'obs.life_ended': 1500, 'obs.shutdown': 1400, 'obs.shared': 600, 'obs.refused': 1200, 'obs.repaired': 250, 'obs.values': 30000, 'obs.autoStart(argc, argv)': 700, 'obs.LifeCycle(argc, argv)': 700})
