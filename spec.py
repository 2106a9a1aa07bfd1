"""The properties (workloads.py has the monitored workloads that decide them).

tools/gen.py writes properties.jsonl and MANIFEST.json from this file.
"""
import workloads

C = 'src/icl_core/src/icl_core/'
G = 'src/icl_core/src/icl_core_config/'
L = 'src/icl_core/src/icl_core_logging/'
T = 'src/icl_core/src/icl_core_thread/'
D = 'src/icl_core/src/icl_core_dispatch/'
Y = 'src/icl_core/src/icl_core_crypt/'
M = 'src/icl_core/src/icl_core_performance_monitor/'
U = 'src/icl_core/src/icl_core_plugin/'

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None, na=None):
    p = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
             observe=observe, hook=hook, state=state or [], na=na, level='exploration', units=[], rule='', technique='', note='',
             min_obs={}, assumptions=[])
    p.update(workloads.W.get(id, {}))
    PROPS.append(p)


# ------------------------------------------------------------------ icl_core
P('P01', 'RingBuffer is a bounded FIFO for every history, across wrap-around and resize',
  'After any sequence of write (with and without overwrite), read, skip, bulk fill, clear, copy and capacity change, a ring '
  'buffer holds exactly the elements a bounded FIFO of that capacity would hold, in order, through every way of looking at it '
  '(size, reserve, empty, full, front, at, iterators and their arithmetic, contiguous blocks). Overwriting a full buffer drops '
  'the oldest element, and shrinking keeps the newest ones. Operations that cannot succeed (write to a full buffer, read or '
  'skip on an empty one, access out of range) throw std::out_of_range and change nothing.',
  ['histories', 'inputs'], 'every operation history, capacity (0 included) and scalar or POD element type',
  'ts_RingBuffer walks a few fixed histories of one element type; wrap positions, resize in a wrapped state and iterator '
  'arithmetic over the seam are a product of histories that no handful of examples covers.',
  [C + 'RingBuffer.h', C + 'RingBuffer.hpp'],
  [('one spare cell tells full from empty', C + 'RingBuffer.h'), ('block accessors and bulk pointer moves', C + 'RingBuffer.hpp')],
  ['return values and exceptions of every public operation'])

P('P02', 'Time spans and time stamps do exact nanosecond arithmetic',
  'A time span or time stamp denotes a whole number of nanoseconds, kept normalised (second and nanosecond parts never of '
  'opposite sign, nanosecond part below one second in magnitude). Building from seconds, milli- or microseconds, adding, '
  'subtracting, taking the absolute value and all six comparisons agree with exact integer arithmetic on that number, and '
  'conversions to coarser units truncate towards zero. The current time lies between two readings of the system clock, and a '
  'time "in the future" by n milliseconds lies n milliseconds after it.',
  ['inputs', 'histories'], 'every pair of values whose result fits the representation, including negative spans and carries, '
  'and every chain of operations',
  'ts_TimeSpan/ts_TimeStamp check a dozen constants; carry, borrow and sign combinations are unbounded.',
  [C + 'TimeBase.h', C + 'TimeBase.cpp', C + 'TimeSpan.h', C + 'TimeSpan.cpp', C + 'TimeStamp.h', C + 'TimeStamp.cpp'],
  [('normalisation after every operation', C + 'TimeBase.cpp'), ('conversion from and to units', C + 'TimeSpan.cpp')],
  ['values returned by the public operations'])

P('P03', 'Calendar text and time stamps convert exactly, both ways, on every thread',
  'The UTC texts of a time stamp (ISO 8601, ISO 8601 basic, and any format passed to the UTC formatter) are the Gregorian date and time of '
  'that instant, the local-time texts are those of the configured time zone, and reading the basic UTC text back gives the same '
  'time stamp to the nanosecond (text cut after year, month, day, hour, minute or second names the beginning of that unit). A time stamp made from a boost ptime denotes the same instant to the microsecond. '
  'This also holds while other threads format other time stamps, and text that is no date is refused with an exception or '
  'yields some time stamp, without touching memory it does not own.',
  ['inputs', 'schedules'], 'every instant of the years 1970 to 9999, every text, every interleaving of concurrent formatting',
  'The tests convert a few recent dates on one thread; leap centuries, month ends, fraction lengths, hostile text and '
  'concurrent formatting are not sampled.',
  [C + 'TimeStamp.h', C + 'TimeStamp.cpp'],
  [('calendar arithmetic of the parser', C + 'TimeStamp.cpp'), ('formatters', C + 'TimeStamp.cpp')],
  ['strings and time stamps returned'])

P('P04', 'Scaling and printing a time span preserve its value',
  'Multiplying or dividing a time span by a number gives the mathematically scaled span up to rounding in the last '
  'nanoseconds (double precision). The printed form of a span is a sum of terms with the units h, m, s, ms, us and ns whose '
  'total is exactly that span, the leading minus sign of a negative span applying to all of it.',
  ['inputs'], 'every span and every factor whose result fits the representation',
  'No test scales a span by a fraction or reads a printed span back.',
  [C + 'TimeSpan.h', C + 'TimeSpan.cpp'],
  [('operator* and operator/', C + 'TimeSpan.h'), ('operator<<', C + 'TimeSpan.cpp')],
  ['returned spans, printed text'])

P('P05', 'UnionFind maintains exactly the partition generated by the merges',
  'After any sequence of merge, find and grow, two elements have the same representative if and only if they are connected by '
  'the merges done so far; the representative is a member of the class and stays the same until the next merge. Growing adds '
  'singletons, chains of a million elements are no deeper to search than the stack allows, and an index out of range is refused with std::out_of_range and changes nothing.',
  ['histories', 'inputs'], 'every sequence of operations and every size',
  'The test merges one small fixed set; path compression and union by rank depend on the merge history.',
  [C + 'UnionFind.h'], [('path compression and rank', C + 'UnionFind.h')], ['find(), size(), exceptions'])

P('P06', 'Sequence numbers count cyclically and order correctly across the wrap',
  'Incrementing a sequence number runs through minimum, minimum+1, ..., maximum-1 and back to the minimum; pre-increment '
  'returns the new and post-increment the old value. For a sequence number that counts from zero, a number advanced by fewer '
  'than half of the maximum steps (integer division) compares greater than the number it started from, also when the count '
  'wrapped in between, and the six comparison operators agree with each other on such pairs.',
  ['inputs'], 'every base type, range, value and distance below half the cycle',
  'There is no test; the wrap and the half-range boundary need exact values of each range.',
  [C + 'SequenceNumber.h'], [('half-range comparison', C + 'SequenceNumber.h'), ('wrapping increment', C + 'SequenceNumber.h')],
  ['comparison results, values'])

P('P07', 'String helpers keep every character and every field',
  'Joining the parts that split produced gives back the text, each part is free of the delimiter, and splitting what was joined '
  'from delimiter-free parts gives back the parts, except that a trailing empty field is not reported (an empty delimiter separates nothing). Trim removes exactly '
  'the white space at both ends, padding yields exactly the requested width without cutting longer text, case conversion changes '
  'letters only, and integers wider than a byte and booleans convert to text exactly, floating point to the decimal digits its type guarantees.',
  ['inputs'], 'every string (empty, all blank, overlapping delimiters, bytes above 127), every number',
  'There is no test for the helpers.',
  [C + 'StringHelper.h', C + 'StringHelper.cpp'], [('split, join, trim, pad, stringify', C + 'StringHelper.cpp')], ['returned strings'])

P('P08', 'Scheme parsing is exact and does not depend on earlier parses',
  'For every text of the form scheme://specifier[#anchor][?name=value&...] the parser reports success and exactly the scheme '
  'kind, lower-case scheme name, specifier, anchor and queries of that text, in order, and printing the result gives those parts '
  'in the order scheme, specifier, queries, anchor. For any text at all the result depends only on that text, not on what '
  'the same parser object parsed before.',
  ['inputs', 'histories'], 'every text, and every sequence of texts given to one parser object',
  'The tests parse seven fixed texts with fresh parsers or with parsers whose stale fields happen not to matter.',
  [C + 'SchemeParser.h', C + 'SchemeParser.cpp'], [('spirit grammar and semantic actions', C + 'SchemeParser.cpp')],
  ['parse result, scheme fields, printed scheme'])

P('P09', 'Zipping a file is lossless, or reported as failed',
  'If zipping a file reports success, then decompressing the archive gives exactly the bytes of the original file, for every '
  'size and content. If the original cannot be read, or the archive cannot be created or completely written, failure is reported. Threads which zip '
  'different files at the same time do not disturb each other.',
  ['inputs', 'fault_sequences', 'schedules'], 'every file size and content, every failing open or write',
  'There is no test; failures need injected faults (missing directory, full device).',
  [C + 'os_fs.cpp', C + 'os_fs.h'], [('copy loop and error handling', C + 'os_fs.cpp')], ['return value, archive content'])

P('P10', 'A multi-threaded singleton is created once and fully constructed for everyone',
  'Whatever number of threads ask for a singleton with the thread-safe threading model for the first time, exactly one object '
  'is constructed and every caller gets that object, completely constructed. At program exit it is destroyed exactly once with '
  'the default lifetime and never with the no-destroy lifetime. An access after the destruction never gives the destroyed '
  'object: with the default lifetime it fails with std::logic_error, with another one the lifetime policy is told first and, '
  'unless it refuses, a new object is constructed and its destruction scheduled again.',
  ['schedules'], 'every interleaving of first accesses',
  'There is no test, and the interleavings of the double-checked creation are not reproducible in one.',
  [C + 'Singleton.h', C + 'Singleton.hpp', C + 'SingletonLifetimePolicies.h', C + 'SingletonCreationPolicies.h',
   T + 'SingletonThreadingModels.h', L + 'SingletonThreadingModels.h'],
  [('double-checked locking', C + 'Singleton.hpp')], ['addresses returned, construction and destruction counts, data races'])

P('P11', 'Key-value directories behave as a map with regular-expression queries',
  'Insert reports whether the key was new and replaces the value otherwise; get and hasKey agree with the inserts. A query '
  'visits exactly the entries whose whole key matches the regular expression, each once, in key order, with the value and the '
  'match groups of that key, and can be rewound.',
  ['histories', 'inputs'], 'every set of keys, every order of inserts, every query',
  'There is no test.',
  [C + 'KeyValueDirectory.h', C + 'KeyValueDirectory.hpp'], [('iterator over matching keys', C + 'KeyValueDirectory.hpp')],
  ['results of insert/get/hasKey/find'])

P('P12', 'SHA-2 digests equal FIPS 180-4 for every message and every chunking',
  'For each of the digest sizes offered, the hexadecimal digest of a message equals the FIPS 180-4 digest of its bytes, however '
  'the message is cut into pieces and whatever the lengths of the pieces. An object that was reset hashes the next message as a '
  'new one would.',
  ['inputs', 'histories'], 'every message length (block and padding boundaries), content and chunking',
  'The tests hash a few fixed messages; padding boundaries combined with chunk boundaries are not covered.',
  [Y + 'Sha2.h', Y + 'Sha2.hpp', Y + 'Sha2Impl.h', Y + 'Sha2Impl.hpp'], [('block buffering and padding', Y + 'Sha2.hpp')],
  ['digest text'])

P('P13', 'Enumeration names map to their index and unknown names are refused',
  'Converting a string to an enumeration value succeeds exactly if the string equals one of the descriptions and then yields '
  'its index, for every kind of description list (NULL-terminated, end-marker-terminated, vector). Otherwise it fails and '
  'leaves the target value as it was.',
  ['inputs'], 'every list of descriptions and every string without NUL characters',
  'There is no direct test.',
  [C + 'EnumHelper.h', C + 'EnumHelper.cpp'], [('string2Enum', C + 'EnumHelper.cpp')], ['return value and target'])

P('P14', 'Small containers and bit helpers do what their names say',
  'A two-dimensional array maps each (column, row) to its own cell in row-major order through every accessor and keeps size and '
  'content through assign, resize, set, reset, copy and swap; a z-buffer keeps, for each cell, the first of the best values since the '
  'last reset; a searchable stack is last-in-first-out and finds the lowest matching element. The relation of two sets is exactly '
  'equal, superset, subset, overlapping or disjoint; setting and clearing bits changes exactly those bits of a field of any width; a scope '
  'guard runs once at the end of the scope exactly if it is enabled.',
  ['histories', 'inputs'], 'every history of operations, size, pair of sets and field width',
  'There is no test for any of these.',
  [C + 'Array2D.h', C + 'ZBuffer.h', C + 'SetHelper.h', C + 'SearchableStack.h', C + 'BitfieldHelper.h', C + 'AtScopeEnd.h'],
  [('index arithmetic', C + 'Array2D.h'), ('merge of sorted sets', C + 'SetHelper.h')], ['values returned by the public operations'])

P('P15', 'Stamped data keeps its value and a completely defined header',
  'A stamped value gives back the data and the header it was made of through every accessor, copy and in its printed form. Every field of a '
  'header is defined from construction on, whichever constructor is used.',
  ['inputs', 'configurations'], 'every value, header and constructor, whatever the memory contained before',
  'There is no test, and undefined members look right by accident.',
  [C + 'DataHeader.h', C + 'DataHeader.cpp'], [('constructors', C + 'DataHeader.h')], ['header fields, printed text'])

P('P16', 'Wrapped containers and value wrappers behave as what they wrap',
  'A class that wraps a vector with the ICL_CORE_WRAP_VECTOR macros, and the containers derived from standard ones (Vector, List, Map, Multimap, '
  'Set, Queue), hold after every sequence of operations exactly what the standard container would hold, with the same results, iterators and '
  'out-of-range exceptions, and further members named in the macro are initialised. A finalizable value takes every assignment until it is '
  'finalized and afterwards refuses with std::logic_error and keeps its value; finality is copied with the value. Expected types are equal exactly '
  'if made of the same type, explicitly typed values and convert() keep the value.',
  ['histories', 'inputs'], 'every history of operations on every wrapped container, every value and type',
  'Only convert() has a test.',
  [C + 'VectorWrapper.h', C + 'Vector.h', C + 'List.h', C + 'Map.h', C + 'Multimap.h', C + 'Set.h', C + 'Queue.h', C + 'Finalizable.h',
   C + 'ExpectedType.h', C + 'Explicit.h', C + 'Convert.h', C + 'TemplateHelper.h'],
  [('forwarding macros', C + 'VectorWrapper.h'), ('finality test in every assignment', C + 'Finalizable.h')], ['values returned by the public operations'])

P('P17', 'The operating system wrappers do what the system call they name does',
  'The portable string, memory, file, time and thread functions in icl_core::os give the result, the error indication and the effect of the '
  'function they name: formatted output is cut at the buffer size and reports the full length, copies touch exactly the bytes named, rename and '
  'unlink change exactly that file or report failure. The time of day lies between two readings of the system clock; a sleep that '
  'reports success lasted at least as long as asked for, and an interrupted one reports so with the time that remains. A thread identifier equals '
  'its own and no other living thread\'s, and a child process has its own process identifier.',
  ['inputs', 'histories', 'schedules'], 'every argument and buffer size, every history of file operations, every moment of a signal',
  'There is no test for these functions.',
  [C + 'os_string.h', C + 'os_string.cpp', C + 'os_posix_string.cpp', C + 'os_mem.h', C + 'os_posix_mem.cpp', C + 'os_fs.h', C + 'os_posix_fs.cpp',
   C + 'os_time.h', C + 'os_posix_time.cpp', C + 'os_thread.h', C + 'os_posix_thread.cpp'],
  [('variable argument forwarding', C + 'os_string.cpp'), ('unit conversion of the time of day', C + 'os_posix_time.cpp')],
  ['return values, errno, buffers, files'])

# ------------------------------------------------------------ icl_core_config
P('P20', 'Attribute tree operations agree with a tree of named, commented nodes',
  'After any sequence of adding, setting, copying, appending, relocating and removing nodes and values, every query on the tree (value '
  'by dotted path, existence, children in order, counts, comments, full paths) answers as a plain tree model does. '
  'Queries and modifications on childless or empty trees are as safe as on others, and deleting a tree leaves nothing behind.',
  ['histories', 'inputs'], 'every sequence of operations on every tree',
  'No test uses attribute trees directly.',
  [G + 'AttributeTree.h', G + 'AttributeTree.cpp'], [('subtree lists and path lookup', G + 'AttributeTree.cpp')], ['query results'])

P('P21', 'A saved attribute tree loads back as the same tree',
  'Writing a tree to a stream or file in any of the two layouts and reading it back gives a tree with the same nodes, order, '
  'values and (if comments are loaded) comments; writing that tree again produces the same text. The freedom of the format '
  '(brackets or dotted names, indentation, blank lines, comments, files included by relative, absolute or environment names) '
  'does not change the tree. Saving reports failure whenever the file could not be written completely, and loading reports '
  'failure for a file that is missing, unreadable or malformed.',
  ['inputs'], 'every tree whose names are free of the format\'s metacharacters (:{}. newline, leading #, surrounding blanks) and whose values are single-line texts',
  'No test saves or loads attribute trees.',
  [G + 'AttributeTree.h', G + 'AttributeTree.cpp'], [('writer and line parser', G + 'AttributeTree.cpp')], ['loaded tree, written text'])

P('P22', 'Reading hostile attribute tree text terminates and stays in bounds',
  'Reading any text at all as an attribute tree terminates, touches no memory outside its buffers, and leaves a tree that can be '
  'walked, queried, printed and deleted; files that include themselves or each other are no exception.',
  ['inputs'], 'every byte string as input file (over-long lines, missing braces, unterminated comments, no final newline, cyclic includes); nesting up to 1500 levels',
  'No test reads malformed attribute trees.',
  [G + 'AttributeTree.cpp'], [('line reader and brace matching', G + 'AttributeTree.cpp')], ['termination, sanitizer reports'])

P('P23', 'File paths are split and normalised without changing what they denote',
  'Normalising a path removes "./", "/./" and "name/../" parts and leaves a path that denotes the same file, however often it is '
  'repeated. The absolute name of a path is that path seen from the current working directory, and consists of the directory, '
  'ending in a slash, and the file name, whose extension is the part from the last dot on. Environment references ${NAME} are '
  'replaced by the values of the variables until none is left; text with unfinished or endlessly nested references comes back '
  'unchanged, always in finite time.',
  ['inputs'], 'every path text and environment',
  'No test uses FilePath.',
  [G + 'AttributeTree.h', G + 'AttributeTree.cpp'], [('normalizePath, replaceEnvironment', G + 'AttributeTree.cpp')], ['returned strings'])

P('P24', 'Command lines are parsed completely: every argument has exactly one meaning',
  'For every set of declared options, prefix options and positional parameters, a command line is accepted exactly if all '
  'required positional parameters are present, no option lacks its value and (strict mode) every option is declared; in the '
  'relaxed mode unknown options count as positional arguments. Then each declared option reports its last value (every value for '
  'prefix options, in order), the remaining arguments are positional ones in order, and everything behind the activated '
  'separator is an extra argument whatever it looks like. Cleaning removes exactly the arguments that were consumed; an accepted '
  'command line is kept by later initialisations, a refused one leaves no trace.',
  ['inputs', 'configurations'], 'every declaration set and argument vector',
  'No test calls the command line parser.',
  [G + 'GetoptParser.h', G + 'GetoptParser.cpp', G + 'GetoptParameter.h', G + 'GetoptPositionalParameter.h'],
  [('argument matching and cleanup', G + 'GetoptParser.cpp')], ['parser results, argc/argv after parsing'])

P('P25', 'Configuration values come from the documented source and precedence',
  'After initialisation, the last text of every XML element of the configuration file is found under the path of element names '
  'below the root ("/a/b"), with entities resolved and blanks condensed, likewise the values of attribute tree files; included '
  'files (relative to the including one) add their keys from the root. Declared parameters given on the command line override '
  'the file, their defaults apply to keys that are still missing, "-o" overrides come last, and no other key is defined. A '
  'missing or malformed main file makes the initialisation fail with a message; missing, malformed or cyclic includes are '
  'skipped.',
  ['inputs', 'configurations'], 'every XML configuration, set of included files and command line',
  'Only one fixed configuration file is loaded by the tests.',
  [G + 'ConfigManager.h', G + 'ConfigManager.cpp', G + 'Config.h', G + 'Config.cpp', G + 'ConfigParameter.h'],
  [('XML traversal and parameter overlay', G + 'ConfigManager.cpp')], ['get(), find() results'])

P('P26', 'Typed configuration access converts exactly or reports failure',
  'Reading a configuration value or command line argument as an integer, floating point number, boolean, string or enumeration '
  'yields exactly the value its text denotes (decimal, 0x hexadecimal, leading 0 octal, yes/no/true/false/1/0 in any case, the '
  'whole text of a string), and fails - leaving the target as it was, or giving the default - exactly if the key is missing or '
  'the text does not begin with a value of that type or its range. A value that was set reads back as the same value.',
  ['inputs'], 'every text and every value type offered',
  'Tests read a few well-formed values only.',
  [G + 'ConfigManager.h', G + 'ConfigHelper.h', G + 'Config.h', G + 'ConfigValue.h', G + 'ConfigValueDefault.h', G + 'ConfigEnum.h'],
  [('hexical_cast and typed get', G + 'ConfigHelper.h')], ['return values, targets'])

P('P27', 'Configuration observers are told about every change of their keys, once',
  'Every change of a key (by setting it, loading a file, or initialisation) calls each observer registered for that key or for '
  'all keys once per registration, with the new value already in force, and no other observer. Registering reports each existing '
  'key that matches exactly once. An observer that has been unregistered or deleted, even by another observer during the same '
  'change, is never called again, and observers may register, unregister and change other keys while they are called.',
  ['histories'], 'every history of registrations, unregistrations and changes',
  'No test registers an observer.',
  [G + 'ConfigManager.h', G + 'ConfigManager.cpp', G + 'ConfigObserver.h'], [('observer map', G + 'ConfigManager.cpp')], ['observer callbacks'])

P('P28', 'Batch reads fill every member from its own key or report failure',
  'A batch read assigns each target the converted value of its own key below the prefix; a target whose key is missing or has no '
  'valid text keeps its value, or gets its default if it has one. It returns true exactly if every request without default '
  'succeeded. A list yields one element per sub key that has a requested member, in order of the sub keys, members not given '
  'keeping the element\'s defaults, and nothing at all if a member has no valid text; each read starts afresh.',
  ['inputs', 'configurations'], 'every configuration and set of requested values',
  'ts_BatchGet covers one configuration file.',
  [G + 'ConfigValues.h', G + 'ConfigList.h', G + 'MemberValue.h', G + 'ConfigValue.h', G + 'ConfigValueDefault.h'],
  [('batch get', G + 'Config.h')], ['targets and return value'])

# ------------------------------------------------------------ icl_core_thread
P('P30', 'Mutexes exclude, and timed and trial locking tell the truth',
  'At most one thread at a time holds a mutex, what the holder wrote is visible to the next one, and a lock attempt '
  '(plain, trial, relative or absolute timeout) reports success exactly if the caller now holds the mutex. A timed attempt fails only after its timeout and '
  'only if the mutex was held, one with a negative relative timeout never; recursive locking works as often as unlocked; scoped locks release exactly what they acquired.',
  ['schedules'], 'every interleaving and every number of threads',
  'The tests use one or two threads with fixed sleeps.',
  [T + 'Mutex.h', T + 'Mutex.cpp', T + 'MutexImplPosix.cpp', T + 'ScopedMutexLock.h', T + 'ScopedMutexLock.cpp'],
  [('POSIX mutex', T + 'MutexImplPosix.cpp')], ['lock results, overlap of critical sections, data races'])

P('P31', 'Readers-writer locks admit many readers or one writer',
  'While a thread holds the write lock nobody else holds the lock in any mode, readers can hold it together, and everything a '
  'writer wrote is visible to later holders. A lock attempt (plain, trial, timed, scoped) reports success exactly if the caller '
  'now holds the lock in the requested mode, so never in a thread that itself holds the lock and one of the two is the write lock; otherwise it fails only '
  'after its timeout, if it has one (a negative relative one is none), and only if another thread had or wanted the lock in a conflicting mode. A released lock can be acquired again by anyone.',
  ['schedules'], 'every interleaving of readers and writers',
  'The tests use fixed sleeps with few threads.',
  [T + 'RWLock.h', T + 'RWLock.cpp', T + 'RWLockImplPosix.cpp', T + 'ScopedRWLock.h', T + 'ScopedRWLock.cpp'],
  [('POSIX rwlock', T + 'RWLockImplPosix.cpp')], ['lock results, holders over time, data races'])

P('P32', 'Semaphores conserve permits',
  'The number of successful waits on a semaphore never exceeds its initial value plus the number of posts so far, and no permit '
  'is lost: after as many posts as waits everybody is through, whatever signals arrive meanwhile. A trial wait succeeds exactly '
  'if a permit is available and never waits; a timed wait fails only after its timeout and only if no permit was available, a plain wait or one with a negative time span never '
  'fails. What was written before a post is visible behind the wait that takes its permit, and a scoped semaphore gives back '
  'what it took.',
  ['schedules'], 'every interleaving of waits and posts',
  'The tests use fixed sleeps with few threads.',
  [T + 'Sem.h', T + 'Sem.cpp', T + 'SemaphoreImplPosix.cpp', L + 'Semaphore.h', L + 'Semaphore.cpp', L + 'SemaphoreImplPosix.cpp', L + 'ScopedSemaphore.h'],
  [('POSIX semaphore', T + 'SemaphoreImplPosix.cpp')], ['wait results, permit balance, data races'])

P('P33', 'Spin locks exclude, and trial locking tells the truth',
  'At most one thread at a time holds a spin lock and what the holder wrote is visible to the next one. A trial lock returns true '
  'exactly if the caller now holds the lock, and never waits.',
  ['schedules'], 'every interleaving',
  'There is no test.',
  [T + 'SpinLock.h', T + 'ScopedSpinLock.h'], [('atomic flag', T + 'SpinLock.h')], ['lock results, overlap, data races'])

P('P34', 'A started thread runs once, is joined, and leaves nothing behind',
  'Starting a thread runs its function exactly once in a new thread, running/finished states only move forward, stop makes it see the end of '
  'execution, and when join returns the function has returned and all it did is visible. After join a thread can be '
  'started again, and no operating-system thread, stack or descriptor outlives the join and destruction of its object. wait reports that '
  'the thread ended exactly if it ended before the timeout (a negative time span is none).',
  ['schedules', 'histories'], 'every interleaving of start, stop, wait, join, and every number of restarts',
  'The tests start a thread once with fixed sleeps.',
  [T + 'Thread.h', T + 'Thread.cpp', T + 'ThreadImplPosix.cpp', L + 'Thread.h', L + 'Thread.cpp', L + 'ThreadImplPosix.cpp'],
  [('start/join handshake', L + 'Thread.cpp'), ('start/join handshake', T + 'Thread.cpp')],
  ['run counts, states, resources of the process, data races'])

P('P35', 'Periodic threads wake up once per period and never early',
  'The k-th wake-up of a periodic thread does not come before k periods have passed since it became periodic, and apart from overruns '
  'one wake-up happens per period without accumulated drift. Changing the period takes effect on the '
  'following waits, and starting, stopping and destroying periodic threads leaks no descriptors.',
  ['schedules', 'histories'], 'every period, period change and load',
  'The test checks one period with a tolerance.',
  [T + 'PeriodicThread.h', T + 'PeriodicThread.cpp', T + 'PeriodicThreadImplTimerfd.cpp', T + 'PeriodicThreadImplEmulate.cpp'],
  [('timerfd', T + 'PeriodicThreadImplTimerfd.cpp')], ['wake-up times, descriptors'])

P('P36', 'Active objects execute queued operations once, in order',
  'Every operation queued on a running active object is executed exactly once, operations of one sender in the order of queueing, one at a time, in the '
  'thread of the active object, and each operation object is destroyed exactly once, whether it was executed or the object was stopped before.',
  ['schedules'], 'every interleaving of senders, execution and stop',
  'There is no test.',
  [T + 'ActiveObject.h', T + 'ActiveObject.cpp', T + 'ActiveOperation.h'], [('operation queue and semaphore', T + 'ActiveObject.cpp')],
  ['execution log, destruction counts, data races'])

P('P37', 'Periodic dispatch executes every registered operation once per period',
  'A periodic dispatch thread executes all registered operations in the order of registration, each once per period, from the '
  'period after registration on, until it is stopped; afterwards none is executed any more. Operations can be added at any time, also while '
  'another one is being executed, and a thread without operations still only wakes up once per period.',
  ['schedules'], 'every interleaving of registration, periods and stop',
  'There is no test.',
  [D + 'PeriodicDispatchThread.h', D + 'PeriodicDispatchThread.cpp', D + 'CallbackOperation.h', D + 'CallbackOperation.cpp'],
  [('operation list', D + 'PeriodicDispatchThread.cpp')], ['execution log, data races'])

# ----------------------------------------------------------- icl_core_logging
P('P40', 'Every enabled message reaches every connected output once, in order per thread',
  'Each message that is written to an enabled log stream from any thread is delivered exactly once to every output connected to '
  'that stream, whole (never interleaved with another message), and messages of one thread arrive in the order written. This holds for synchronous '
  'and worker-thread outputs, with streams and threads created at any time, up to shutdown.',
  ['schedules', 'configurations'], 'every interleaving of any number of logging threads, streams and outputs',
  'There is no automated logging test.',
  [L + 'LogStream.h', L + 'LogStream.cpp', L + 'ThreadStream.h', L + 'ThreadStream.cpp', L + 'LogOutputStream.h', L + 'LogOutputStream.cpp'],
  [('thread stream pool', L + 'LogStream.cpp'), ('message queue and worker thread', L + 'LogOutputStream.cpp')],
  ['messages received by an output stream, data races'])

P('P41', 'A delivered message carries exactly what was logged, cut only at the limits',
  'The text, stream name, level, file, line, class, object and function delivered with a message are those given by the '
  'logging statement; texts longer than the maximum lengths are cut to a terminated prefix and nothing else is altered, whatever was logged before '
  'and whatever is logged at other levels while the parts of the message are computed.',
  ['inputs', 'histories'], 'every message and location text, of any length, and every preceding message',
  'There is no automated logging test.',
  [L + 'LogOutputStream.h', L + 'LogOutputStream.cpp', L + 'ThreadStream.h', L + 'ThreadStream.cpp', L + 'Constants.h'],
  [('fixed-size message fields', L + 'LogOutputStream.h')], ['messages received by an output stream'])

P('P42', 'Messages pass exactly if their level passes the stream and the output',
  'A message is delivered to an output exactly if the stream is activated and the message level is at least as severe as the '
  'level of the stream and that of the output at that time; changing levels takes effect for the following '
  'messages only, and level names and values convert into each other.',
  ['histories', 'configurations'], 'every combination of levels and every history of level changes',
  'There is no automated logging test.',
  [L + 'LogLevel.h', L + 'LogLevel.cpp', L + 'LogStream.h', L + 'LogStream.cpp', L + 'LogOutputStream.cpp', L + 'LoggingManager.cpp'],
  [('level tests in stream and output', L + 'LogStream.cpp')], ['messages received by an output stream'])

P('P43', 'Log formats render exactly what they describe',
  'A message rendered through a log format is the concatenation, in order, of the literal texts and of the requested fields with their '
  'widths; any format text at all is either rendered or refused, without touching memory it does not own, and a change '
  'of the format takes effect without corrupting messages being rendered. Fields longer than their documented size are cut to it.',
  ['inputs', 'schedules'], 'every format text and message',
  'There is no automated logging test.',
  [L + 'LogOutputStream.h', L + 'LogOutputStream.cpp'], [('format parser and renderer', L + 'LogOutputStream.cpp')], ['rendered text'])

P('P44', 'File logs lose no line through rotation, compression and deletion',
  'The lines of the log file and its rotated (and compressed) predecessors together are all delivered messages, once and in '
  'order, also if a rotation fails; only what is said while the disk is full may be lost. With Rotate on, the file is rotated when the (UTC) day changes, to a file named after it '
  'with the date of the day it was begun, which never replaces another file. A rotation deletes exactly the rotated files of this log whose last '
  'modification lies more than DeleteOlderThan calendar days back, and no other file in the directory is changed or deleted.',
  ['histories', 'configurations', 'fault_sequences'], 'every history of messages over days, configurations of rotation, online compression and deletion',
  'There is no automated logging test.',
  [L + 'FileLogOutput.h', L + 'FileLogOutput.cpp', C + 'os_fs.cpp'], [('rotation', L + 'FileLogOutput.cpp')], ['files in the log directory'])

P('P45', 'The SQLite log contains every message exactly as logged',
  'Every delivered message is one row of the database with exactly its time stamp (local time, to the second), stream, level, location and text, for all '
  'contents including quotes and SQL text, in order, also while others use the database for short times. Rotated databases (Rotate on, the day changes) '
  'and the current one together hold all rows ever written; a rotation renames the file by its day (UTC), replaces no earlier one, and neither it nor the end of the output leaves a descriptor open. '
  'A database that cannot be used costs its messages and changes no foreign file; a disk that is full for a while costs at most the messages of that while.',
  ['inputs', 'histories'], 'every message content and history',
  'There is no automated logging test.',
  [L + 'SQLiteLogOutput.h', L + 'SQLiteLogOutput.cpp', L + 'SQLiteLogDb.h', L + 'SQLiteLogDb.cpp'], [('prepared insert', L + 'SQLiteLogDb.cpp')],
  ['database content'])

P('P46', 'A UDP log datagram is one well-formed record of exactly the message',
  'Every delivered message is sent as one datagram which, read as the value list of an SQL insert (what the log server does with it), '
  'yields exactly system name, time stamp (local time, to the second), nanoseconds, level, stream, file, line, class, object, function and text of the message, '
  'whatever quotes, backslashes or commas they contain; that the server was away before loses no later message. '
  'The port is 60000 unless configured; outputs use the first usable address of the host, leave no descriptor open and touch none of others, also without a usable destination.',
  ['inputs'], 'every message content',
  'There is no automated logging test.',
  [L + 'UdpLogOutput.h', L + 'UdpLogOutput.cpp'], [('escaping and serialisation', L + 'UdpLogOutput.cpp')], ['datagrams on the loopback interface'])

P('P47', 'Shutting logging down delivers what was logged and can be repeated',
  'When shutdown returns, every message written before to an enabled stream has been delivered to its outputs, no '
  'worker thread remains, and later messages are dropped or delivered but do no harm. Initialisation after a shutdown gives working logging again.',
  ['schedules', 'histories'], 'every number of pending messages and every interleaving of producers, workers and shutdown',
  'There is no automated logging test.',
  [L + 'LoggingManager.h', L + 'LoggingManager.cpp', L + 'LogOutputStream.cpp', L + 'Logging.cpp'],
  [('worker drain at shutdown', L + 'LogOutputStream.cpp')], ['messages received, threads of the process'])

P('P48', 'Values streamed into a log message appear with their value',
  'Numbers, booleans, pointers, strings, matrices, time stamps and spans streamed or printed (printf style) into a message appear in the text as the value they have '
  '(integers exactly, floating point as the %f format), in order, cut off at the maximum message length and without touching '
  'memory outside it.',
  ['inputs'], 'every value of every supported type and every sequence of them',
  'There is no automated logging test.',
  [L + 'ThreadStream.h', L + 'ThreadStream.cpp', L + 'stream_operators_impl_posix.cpp', L + 'Logging.cpp'],
  [('fixed buffer formatting', L + 'stream_operators_impl_posix.cpp')], ['message text'])

P('P49', 'Configuration and command line decide which message reaches which output',
  'The configured outputs (standard output, standard error, files, types of the application) exist once under their name and level, connected to the streams listed for them or else to all; '
  'configured stream levels apply, and without configured outputs everything goes to the standard output. --log-level sets all levels and adds the '
  'standard output, --quick-debug adds a file for the stream QuickDebug, which holds the messages while the program goes on; unknown names and levels are ignored. '
  'This stays so when streams and outputs are added, configured or removed, levels set, and logging initialised again.',
  ['configurations', 'histories'], 'every configuration, command line and history of streams and outputs',
  'There is no automated logging test.',
  [L + 'LoggingManager.h', L + 'LoggingManager.cpp', L + 'LogStream.cpp', L + 'Logging.cpp', L + 'StdLogOutput.cpp', L + 'StdErrorLogOutput.cpp'],
  [('stream and output maps', L + 'LoggingManager.cpp')], ['messages received per output'])

# ------------------------------------------------------- performance monitor
P('P50', 'Performance statistics are those of the recorded samples',
  'For every set of recorded times and values the reported count, mean, minimum, maximum and median are those of exactly the '
  'recorded samples of that name and prefix; asking about names never recorded is safe, and disabled '
  'prefixes record nothing. Summaries and durations are logged once, at the requested level.',
  ['inputs', 'histories'], 'every history of samples, names and prefixes',
  'There is no test.',
  [M + 'PerformanceMonitor.h', M + 'PerformanceMonitor.cpp'], [('data maps', M + 'PerformanceMonitor.cpp')], ['statistics returned and printed'])

# -------------------------------------------------------------------- plugin
P('P51', 'The plugin manager offers exactly the loadable plugins, and each only once',
  'After initialisation the available plugins are exactly those of the shared libraries in the plugin paths (and, for a recursive search, '
  'below them) which carry the interface of the manager, and the static plugins added and not removed; asking for one yields always the same '
  'instance (the static one, if there is one of that name), createPluginInstance a fresh one. Unknown names yield no plugin, and foreign or '
  'broken files and paths are reported in errorMessages; neither changes what is available. Destroying the manager destroys each of its own '
  'instances once, closes every library and leaves the static plugins alone.',
  ['configurations', 'histories'], 'every set of libraries in the directory and every sequence of requests',
  'There is no test.',
  [U + 'PluginManager.h', U + 'PluginManagerBase.h', U + 'PluginManagerBase.cpp'], [('handle map', U + 'PluginManagerBase.cpp')],
  ['plugin lists, instances, construction and destruction counts'])

# -------------------------------------------------------------------- timers
P('P52', 'Scoped timers and measurement macros log what they measured, once',
  'A scoped timer logs its description and the nanoseconds since its construction with its own level, stream, file, line, class and object: '
  'at every print, and exactly once at stop or at the end of its scope, whichever comes first. Every scoped timer and PERF_MON macro does what the class or function '
  'behind it does with the level and prefix its name says; without IC_PERFORMANCE_MONITOR, and at debug and trace level in a release build, it does nothing '
  'and does not evaluate its arguments.',
  ['inputs', 'histories', 'configurations'], 'every history of overlapping timers, level, clock movement and build variant',
  'There is no test.',
  [L + 'ScopedTimer.h', L + 'LoggingMacros_SLOGGING.h', M + 'PerformanceMonitorMacros.h', M + 'PerformanceMonitor.cpp'],
  [('active flag', L + 'ScopedTimer.h'), ('macro variants', M + 'PerformanceMonitorMacros.h')], ['messages received by an output of the stream'])

# ----------------------------------------------------------------- old names
P('P53', 'Every old name does exactly what its replacement does',
  'Programs written against the old, capitalised names (SetBits, String2Enum, Write, Find, FormatIso8601, ZipFile, SetAttribute, ParamOpt, GetDefault, '
  'Initialize, Printf, Lock, Start, ...) get the same results, default arguments, exceptions, output and files as with the names that replaced them. '
  'The same holds for the old classes tRingBuffer, tSearchableStack, tVector, tSequenceNumber and TConfigValue.',
  ['inputs', 'histories'], 'every sequence of calls of the old names in core, configuration, logging and thread components',
  'The tests use the new names only; several hundred old names exist.',
  [C + 'BitfieldHelper.h', C + 'SequenceNumber.h', C + 'tRingBuffer.h', C + 'tSearchableStack.h', C + 'tVector.h', C + 'RingBuffer.hpp', C + 'KeyValueDirectory.hpp', C + 'TimeStamp.cpp',
   G + 'AttributeTree.cpp', G + 'Config.h', G + 'GetoptParser.cpp', L + 'ThreadStream.cpp', L + 'LogOutputStream.cpp', L + 'LoggingManager.cpp', T + 'Thread.cpp', T + 'Mutex.cpp', T + 'RWLock.cpp', T + 'Sem.cpp'],
  [('old names in their own sections', C + 'Deprecate.h'), ('a second implementation of printf', L + 'ThreadStream.cpp'), ('a second ring buffer', C + 'tRingBuffer.h')],
  ['results, exceptions, standard output, files and logged lines of the same script with old and with new names'])

P('P54', 'A thread object speaks for its own thread only',
  'threadSelf() is true exactly inside of the thread the object runs, threadId() is that thread\'s, and priority() and setPriority() report and change the '
  'scheduling priority of that thread and of no other. This holds at any time: before the first start, while the thread runs, after it has ended and was joined '
  '(when the operating system may have given its identity to another thread), and after a new start. Descriptions are kept as set, and threadInfo() names the description and number of the latest start.',
  ['histories', 'schedules'], 'every history of starts, ends, joins, destructions, priorities and descriptions of a group of threads',
  'No test looks at the identity, priority or description of a thread.',
  [T + 'Thread.h', T + 'Thread.cpp', T + 'ThreadImplPosix.cpp', T + 'ThreadImplPosix.h', C + 'os_posix_thread.h', C + 'os_posix_thread.cpp'],
  [('identities of ended threads', T + 'ThreadImplPosix.cpp')], ['threadSelf() inside of every thread for every object; priorities as the operating system reports them'])

P('P55', 'The help text explains everything that was declared',
  'Whoever asks for help (printHelp(), --help, -h) or makes a mistake (unknown option, missing value, missing required parameter) gets a text that names the program, its version and description, '
  'and every declared option and positional parameter exactly once with its short name, whether it takes a value, and its full help text with the default value of a configuration parameter, in a usage line that lists required before optional parameters. '
  'The program ends with success after --help and after missing required parameters; other mistakes make the initialization fail.',
  ['inputs', 'configurations'], 'every set of declared options, prefix options, configuration parameters and positional parameters',
  'No test prints the help text.',
  [G + 'GetoptParser.cpp', G + 'GetoptParser.h', G + 'GetoptParameter.cpp', G + 'GetoptPositionalParameter.h', G + 'ConfigManager.cpp', G + 'Config.h'],
  [('printHelp()', G + 'GetoptParser.cpp')], ['standard error and end of a process that declares and asks'])

P('P56', 'Every way to start the framework gives the same program',
  'Whichever entry point starts configuration and logging (initialize() of either in its three forms, LifeCycle, autoStart(), the first use of a stream), the configuration has the values of file, declarations and command line, the streams and '
  'outputs their configured levels, and it fails exactly if an option is unknown to a strict check or the file cannot be read, with a message. Cleaning leaves the name of the program and the arguments the framework does not know, in their order; '
  'without it, and by a second start, the arguments are left untouched. A further start changes nothing that has succeeded and makes up for what had failed; logging lasts until shutdown() or the end of the last owner of the life cycle and '
  'can be started again afterwards.',
  ['inputs', 'configurations', 'histories'], 'every command line, configuration file and sequence of starts and ends',
  'No test starts the framework with arguments; the demos use one entry point each.',
  [G + 'Config.cpp', G + 'Config.h', G + 'GetoptParser.cpp', G + 'ConfigManager.cpp', 'src/icl_core/src/icl_core_logging/Logging.cpp', 'src/icl_core/src/icl_core_logging/Logging.h', 'src/icl_core/src/icl_core_logging/LoggingManager.cpp', 'src/icl_core/src/icl_core_logging/LoggingManager.h'],
  [('initialize() of configuration and logging, LifeCycle', 'src/icl_core/src/icl_core_logging/Logging.cpp')], ['argument vectors, configuration values, log files and return values behind each start'])
