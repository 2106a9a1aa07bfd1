"""Builds harness programs together with the real sources of /repo.

Every component's *.cpp (the ones that belong to this platform) is compiled
from /repo's working tree with the project's own defines and linked, as object
files, into the harness.  Objects are reused only if the content of every file
they were made of is unchanged (content hashes, never time stamps).
"""
import fcntl, glob, hashlib, json, os, re, shlex, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src/icl_core/src')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

COMMON = ('-DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ '
          '-D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ '
          '-DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK -DNDEBUG '
          '-D_IC_BUILDER_HAS_TIME_H_ -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_PTHREAD_ '
          '-D_IC_BUILDER_SQLITE3_ -D_IC_BUILDER_SQLite3_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_ '
          '-D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_BOOST_SYSTEM_ -D_IC_BUILDER_ZLIB_ '
          '-D_IC_BUILDER_EIGEN3_ -D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_ICL_CORE_ -D_IC_BUILDER_ICL_CORE_CONFIG_ '
          '-D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_ICL_CORE_LOGGING_ '
          '-msse -msse2 -fPIC -w -fno-omit-frame-pointer').split()

FLAVORS = {
    # gcc-level product build, as shipped (optimised, no instrumentation)
    'plain': ('g++', ['-O2', '-g1'], []),
    # memory safety + undefined behaviour, with poisoned automatic variables
    'asan': ('clang++', ['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                         '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern',
                         '-D_GLIBCXX_ASSERTIONS'],
             ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-shared-libsan'][:2]),
    # data races
    'tsan': ('clang++', ['-O1', '-g1', '-fsanitize=thread'], ['-fsanitize=thread']),
    # uninstrumented but quick to compile: for the interposed-schedule runs and for valgrind
    'dbg': ('clang++', ['-O0', '-g1', '-D_GLIBCXX_ASSERTIONS'], []),
}

COMPONENTS = {
    'none': [],
    'core': ['icl_core'],
    'config': ['icl_core', 'icl_core_config'],
    'logging': ['icl_core', 'icl_core_config', 'icl_core_logging'],
    'thread': ['icl_core', 'icl_core_config', 'icl_core_logging', 'icl_core_thread'],
    'dispatch': ['icl_core', 'icl_core_config', 'icl_core_logging', 'icl_core_thread', 'icl_core_dispatch'],
    'perf': ['icl_core', 'icl_core_config', 'icl_core_logging', 'icl_core_performance_monitor'],
    'plugin': ['icl_core', 'icl_core_config', 'icl_core_logging', 'icl_core_plugin'],
}
LIBS = {
    'none': ['-lpthread', '-lz'],
    'core': ['-lboost_date_time', '-lboost_regex', '-lz', '-lpthread'],
}
LIBS_FULL = ['-lboost_filesystem', '-lboost_system', '-lboost_atomic', '-lboost_date_time', '-lboost_regex',
             '-ltinyxml', '-lsqlite3', '-lz', '-lpthread', '-ldl']

SKIP = re.compile(r'(Lxrt|Win32|Darwin|QNX|lxrt|win32|example_usage)')


class BuildError(Exception):
    pass


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def component_sources(name):
    out = []
    for c in COMPONENTS[name]:
        for f in sorted(glob.glob(os.path.join(SRC, c, '*.cpp'))):
            if not SKIP.search(os.path.basename(f)):
                out.append(f)
    return out


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    deps = set()
    for d in shlex.split(t):
        d = os.path.normpath(d)
        if d.startswith(REPO + '/') or d.startswith(VERIF + '/'):
            deps.add(d)
    return sorted(deps)


def obj_valid(stamp, cmdkey):
    try:
        with open(stamp) as f:
            s = json.load(f)
        if s['cmd'] != cmdkey:
            return False
        return all(os.path.exists(d) and sha(d) == h for d, h in s['deps'].items())
    except (OSError, ValueError, KeyError):
        return False


def compile_one(src, flavor, extra, objdir):
    cxx, flags, _ = FLAVORS[flavor]
    name = re.sub(r'[^A-Za-z0-9_.]', '_', os.path.relpath(src, '/'))
    if extra:
        name += '.' + hashlib.sha256(' '.join(extra).encode()).hexdigest()[:8]
    obj = os.path.join(objdir, name + '.o')
    stamp = obj + '.json'
    cmd = [cxx] + flags + COMMON + list(extra) + ['-I/opt/vp/compat', '-I/usr/include/eigen3', '-I' + SRC,
                                                  '-I' + os.path.join(VERIF, 'harness')]
    cmdkey = hashlib.sha256(' '.join(cmd + [src]).encode()).hexdigest()
    if os.path.exists(obj) and obj_valid(stamp, cmdkey):
        return obj, False
    tmp = '%s.%d' % (obj, os.getpid())
    full = cmd + ['-MMD', '-MF', tmp + '.d', '-c', src, '-o', tmp + '.o']
    for attempt in range(3):
        begin = time.time() - 0.05
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError('compiling %s (%s):\n%s' % (src, flavor, p.stdout[-4000:]))
        deps = {d: sha(d) for d in parse_deps(tmp + '.d')}
        if all(os.stat(d).st_ctime < begin for d in deps):
            break       # otherwise a file was edited under the compiler
    if os.path.exists(stamp):
        os.unlink(stamp)
    os.rename(tmp + '.o', obj)
    with open(tmp + '.json', 'w') as f:
        json.dump({'cmd': cmdkey, 'deps': deps}, f)
    os.rename(tmp + '.json', stamp)
    os.unlink(tmp + '.d')
    return obj, True


def build_many(requests, log=lambda s: None):
    """requests: list of dicts(harness, flavor, comps, wrap, extra_src, defs, shared). Returns list of programs."""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for r in requests:
            objdir = os.path.join(BUILD, r['flavor'], 'obj')
            os.makedirs(objdir, exist_ok=True)
            own = [os.path.join(VERIF, 'harness', r['harness'] + '.cpp')]
            own += [os.path.join(VERIF, 'harness', s) for s in r.get('extra_src', [])]
            r['_srcs'] = [(s, r['flavor'], tuple(r.get('defs', [])), objdir) for s in own]
            r['_srcs'] += [(s, r['flavor'], tuple(r.get('defs', [])) if '/icl_core_performance_monitor/' in s else (), objdir)
                           for s in component_sources(r['comps'])]
            for j in r['_srcs']:
                jobs[j] = None
            r['_plugins'] = []
            for name, src, defs in r.get('plugins', []):
                pdir = os.path.join(BUILD, 'dbg', 'obj')
                os.makedirs(pdir, exist_ok=True)
                j = (os.path.join(VERIF, 'harness', src), 'dbg', tuple(defs), pdir)
                jobs[j] = None
                r['_plugins'].append((name, j))
        # the expensive ones first
        def weight(j):
            b = os.path.basename(j[0])
            return (0 if re.search(r'ConfigManager|GetoptParser|UdpLogOutput|ConfigIterator|LoggingManager|^Config\.|harness', j[0]) else 1, b)
        order = sorted(jobs, key=weight)
        with ThreadPoolExecutor(JOBS) as ex:
            futs = {j: ex.submit(compile_one, *j) for j in order}
            errs = []
            for j, f in futs.items():
                try:
                    jobs[j] = f.result()
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs))
        progs = []
        for r in requests:
            objs = [jobs[j][0] for j in r['_srcs']]
            cxx, _, lflags = FLAVORS[r['flavor']]
            exe = os.path.join(BUILD, r['flavor'], r['harness'] + ('-' + r['name'] if r.get('name') else ''))
            wraps = ['-Wl,--wrap=' + w for w in r.get('wrap', [])]
            libs = LIBS.get(r['comps'], LIBS_FULL)
            cmd = [cxx] + lflags + ['-fuse-ld=lld' if cxx == 'clang++' and os.path.exists('/usr/bin/ld.lld') else '-pthread',
                                    '-rdynamic', '-o', exe] + objs + wraps + libs
            key = hashlib.sha256((' '.join(cmd) + ''.join(sha(o + '.json') for o in objs)).encode()).hexdigest()
            fresh = False
            try:
                with open(exe + '.key') as f:
                    fresh = f.read() == key and os.path.exists(exe)
            except OSError:
                pass
            if not fresh and any(jobs[j][1] for j in r['_srcs']) or not fresh:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise BuildError('linking %s:\n%s' % (exe, p.stdout[-4000:]))
                with open(exe + '.key', 'w') as f:
                    f.write(key)
            progs.append(exe)
            for name, j in r['_plugins']:
                # shared libraries the harness finds beside its program
                pdir = exe + '-plugins'
                os.makedirs(pdir, exist_ok=True)
                so = os.path.join(pdir, name)
                cmd = ['clang++', '-shared', '-o', so, jobs[j][0]]
                key = hashlib.sha256((' '.join(cmd) + sha(jobs[j][0] + '.json')).encode()).hexdigest()
                try:
                    with open(so + '.key') as f:
                        if f.read() == key and os.path.exists(so):
                            continue
                except OSError:
                    pass
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise BuildError('linking %s:\n%s' % (so, p.stdout[-4000:]))
                with open(so + '.key', 'w') as f:
                    f.write(key)
        return progs

