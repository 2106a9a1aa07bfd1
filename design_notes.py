"""What each check does not judge, and why (goes into DESIGN.md)."""
LIMITS = {
 'P01': 'Element types are scalars and PODs; capacities stay below a few dozen, which covers every relation of read position, write position and end.',
 'P02': 'Values whose result does not fit the representation are not generated. DDS and iTime conversions are not compiled on this platform.',
 'P03': 'Instants of the years 1970 to 9999; the time zones are changed between, not during, conversions.',
 'P04': 'Scaling is judged up to double precision, as the functions are documented in terms of double.',
 'P05': 'Mixed histories up to about 500 elements, tournaments up to 4096, chains up to a million.',
 'P06': 'Order is judged only for sequence numbers that count from zero and for distances below half of the maximum, where it is defined.',
 'P07': 'Text to number conversions of other locales are not judged. A trailing empty field is not reported by split; that is part of the statement.',
 'P08': 'Printing is judged by the order of the parts, not by their escaping.',
 'P09': 'Writes are made to fail by /dev/full, RLIMIT_FSIZE and permissions (as an unprivileged user).',
 'P10': 'The default and no-destroy lifetimes, with the thread-safe model. No claim is made for the single threaded model with threads.',
 'P11': 'Queries are generated expressions whose meaning (groups included) is the same in the ECMAScript and Perl grammars.',
 'P12': 'One message of 513 MiB per digest size (above 2^32 bits); nothing longer.',
 'P13': 'Strings with NUL characters cannot be told from shorter ones by a C string list.',
 'P14': 'Small sizes; fields of 8 to 64 bits.',
 'P15': 'Whether dirty memory shows in a member is judged by the fixed pattern and random content the objects are built on.',
 'P16': 'Calls that do not compile (assign and insert of two integers of the same type) are outside. Elements are strings and doubles.',
 'P17': 'The real-time extension (LXRT) is not available here. Sleeping has no upper bound on time.',
 'P20': 'Descriptions without "." and ":"; trees of up to about 60 nodes.',
 'P21': 'Names free of metacharacters, single-line values, as the format has no escapes.',
 'P22': 'Nesting up to 1500 levels and 2000 subtrees per node: deletion and printing recurse (stack), which is inherent in the representation.',
 'P23': 'In the lexical part no component is a symbolic link (".." behind a link means something else); existing files are compared by inode.',
 'P24': 'Each command line is tried in a fresh process.',
 'P25': 'One process per configuration. Documents have at most some thirty keys.',
 'P26': 'A number followed by other text, a negative number read as unsigned and denormal numbers are not judged.',
 'P27': 'Observers are single threaded, as the configuration is.',
 'P28': 'Lists of a few elements; typed conversion itself is the business of P26.',
 'P30': 'Time limits: a failed attempt is judged against "not before its timeout"; a successful hand-over against a timeout that is far longer than the hold. There is no upper bound on times, so a loaded machine cannot raise an alarm.',
 'P31': 'As P30. Whether readers or writers are preferred is left to the platform.',
 'P32': 'As P30.',
 'P33': 'As P30. Fairness is not claimed.',
 'P34': 'join() together with the destruction of the object by another thread, and the destruction of a derived thread that still runs, are excluded (undefined in C++ itself).',
 'P35': 'Positive periods. Drift is judged only in runs in which the machine kept the thread from running for less than 1.5 periods.',
 'P36': 'A derived class whose object is destroyed while running cannot get its onThreadStop (C++), this is not judged.',
 'P37': 'Operations are added before and between starts, while running, by other threads and by operations; removing operations is not offered by the interface.',
 'P40': 'Streams and outputs are created before the threads log, as documented. Messages logged while an output is removed are excluded.',
 'P41': 'No NUL characters in texts, no NULL strings, no second message on the same level within the argument of a message; macro arguments are not named like macro internals.',
 'P42': 'Levels are changed while other threads log; a message logged during the change may be judged by either level.',
 'P43': 'Widths up to three digits; formats up to the entry length the class defines (longer ones only for memory safety).',
 'P44': 'Not judged: gz content after a crash of the process.',
 'P45': 'The database is not read by others during rotation itself; locks of other connections are.',
 'P46': 'Loopback with a large receive buffer; the receiver reads one datagram after each message.',
 'P47': 'Logging from other threads while the manager is being shut down is excluded by the documentation of the manager.',
 'P48': 'Fractions of a second before 1970 may be cut either way. Texts are cut at 2048 characters.',
 'P49': 'Duplicate output names, illegal or missing levels of streams are not generated.',
 'P50': 'Prefixes with "::", and single prefixes switched off together with enableAll, are not generated: they are ambiguous in the interface.',
 'P52': 'The library itself is built without debug levels, so summaries at debug level are judged by what they must not do. Timers are used by one thread; concurrency of the streams is the business of P40.',
 'P53': 'Times of day in printed text are masked. The old names of the plugin manager, of the hard-realtime (LXRT) functions and of the CppUnit runner are not called. What the new names do is judged by the other properties, this one judges equality only.',
 'P54': 'Threads are asked by each other only while nothing else happens to the group (a joined identity is given to a new thread at rest). Real-time priorities are set only where the sandbox permits it; the harness keeps root rights for that and touches only its own threads.',
 'P55': 'Names are unique, options and positional parameters together; the layout of the text is left open.',
 'P56': 'The entry behind the last argument is left open. Where a start fails, the state of logging and of the arguments is left open.',
 'P51': 'Which of two libraries with one identifier is used is left open. Deleting created instances after the manager (whose code is then unloaded) is excluded.',
}
