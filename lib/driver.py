"""Runs the monitored workloads of one property and judges what the monitors reported.

Exit 0: the property held on everything observed (known findings are printed).
Exit 1: a violation was observed (VIOLATION line, replay file).
Exit 2: the check could not do its work (build failure, vacuous run, ...).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NOBODY = 65534

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:halt_on_error=1:detect_stack_use_after_return=1:handle_segv=1:'
                    'allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:'
                    'strict_string_checks=1:check_initialization_order=0:symbolize=1:abort_on_error=0:'
                    'detect_odr_violation=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:'
                    'ignore_noninstrumented_modules=1:detect_deadlocks=0:report_thread_leaks=0:report_destroy_locked=0',
}


def unesc(s):
    return re.sub(r'\\(n|t|r|\\|x[0-9a-f]{2})',
                  lambda m: {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\'}.get(m.group(1)) or chr(int(m.group(1)[1:], 16)), s)


class Known:
    def __init__(self, prop):
        self.items = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line.strip())
                    if m and m.group(1) == prop:
                        self.items.append({'key': m.group(2), 'what': m.group(3), 'seen': 0})

    def match(self, key):
        for k in self.items:
            if k['key'] == key:
                k['seen'] += 1
                return k
        return None


def repo_frames(text):
    """(function, file) of the stack frames inside /repo's sources, in order."""
    out = []
    for m in re.finditer(r'#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.+?)\s+(/\S+?):(\d+)', text):
        fn, path = m.group(1), m.group(2)
        if path.startswith(build.REPO + '/'):
            fn = re.sub(r'\(.*', '', fn)
            fn = re.sub(r'<.*', '', fn)
            out.append((fn.strip(), os.path.relpath(path, build.SRC)))
    return out


def sanitizer_key(text, rc):
    """Key and readable headline of the sanitizer report in a stderr text, or None."""
    fr = repo_frames(text)
    top = fr[0][0] if fr else '?'
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', text)
    if m:
        kind = m.group(1).strip()
        blocks = re.split(r'\n\s*\n', text[m.start():])
        fns = []
        for b in blocks[:3]:
            f = repo_frames(b)
            if f and f[0][0] not in fns:
                fns.append(f[0][0])
        if not fr:
            return ('tsan-nonrepo:' + kind.replace(' ', '-'), kind)
        return ('tsan:%s:%s' % (kind.replace(' ', '-'), '|'.join(sorted(fns[:2]))), kind + ' in ' + ' / '.join(fns[:2]))
    m = re.search(r'(\S+?):(\d+):(\d+): runtime error: ([^\n]*)', text)
    if m:
        what = re.sub(r"'[^']*'|0x[0-9a-f]+|-?\d[\d.e+]*", 'N', m.group(4))
        what = re.sub(r'[^A-Za-z]+', '-', what).strip('-')[:60]
        return ('ubsan:%s:%s' % (what, top), m.group(4) + ' at ' + os.path.basename(m.group(1)) + ':' + m.group(2))
    m = re.search(r'ERROR: AddressSanitizer:? ([A-Za-z-]+)', text)
    if m:
        return ('asan:%s:%s' % (m.group(1), top), m.group(1) + ' in ' + top)
    m = re.search(r'Assertion \'(.*?)\' failed', text)
    if m:
        return ('assert:' + re.sub(r'[^A-Za-z0-9]+', '-', m.group(1))[:60], 'libstdc++ assertion ' + m.group(1))
    m = re.search(r'^==\d+== ((?:Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param|Mismatched|Invalid free)[^\n]*)', text, re.M)
    if m:
        fn = '?'
        for mm in re.finditer(r'^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.+?) \(([^)]*)\)', text[m.start():], re.M):
            if 'icl_core' in mm.group(1):
                fn = re.sub(r'\(.*', '', mm.group(1))
                break
        return ('memcheck:%s:%s' % (re.sub(r'[^A-Za-z]+', '-', m.group(1))[:40].strip('-'), fn), m.group(1) + ' in ' + fn)
    if 'terminate called' in text or 'libc++abi: terminating' in text:
        m = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
        return ('terminate:' + (m.group(1) if m else '?'), text.strip().split('\n')[-1][:200])
    return None


class Shard:
    """One process executing the cases [lo, hi) of a unit, restarted after a crash."""

    def __init__(self, run, unit, idx, lo, hi):
        self.run, self.unit, self.idx, self.lo, self.hi = run, unit, idx, lo, hi
        self.restarts = 0

    def argv(self, lo, hi, report, scratch):
        u = self.unit
        a = [u['_exe'], '--seed', str(self.run.seed), '--from', str(lo), '--to', str(hi),
             '--report', report, '--scratch', scratch]
        if u.get('mode'):
            a += ['--mode', u['mode']]
        for k, v in u.get('opts', {}).items():
            a += ['--' + k, str(v)]
        if u.get('valgrind'):
            a = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--track-origins=no',
                 '--leak-check=no', '--fair-sched=yes'] + a
        return a

    def exec(self, lo, hi, hang):
        """Runs; returns (status, case, phase, report_text, stderr). status: ok|crash|hang|broken"""
        base = tempfile.mkdtemp(prefix='s%d_' % self.idx, dir=self.run.tmp)
        scratch = os.path.join(base, 'scratch')
        os.mkdir(scratch)
        report = os.path.join(base, 'report')
        for p in (base, scratch):
            os.chmod(p, 0o777)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update({'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'HOME': scratch})
        env.update(self.unit.get('env', {}))
        errf = open(os.path.join(base, 'stderr'), 'w+b')
        outf = open(os.path.join(base, 'stdout'), 'w+b')
        kw = {'start_new_session': True}
        # real-time priorities (of the harness's own threads) need the rights of root
        if os.getuid() == 0 and not self.unit.get('rtprio'):
            kw.update(user=NOBODY, group=NOBODY, extra_groups=[])
        argv = self.argv(lo, hi, report, scratch)
        try:
            p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=outf, stderr=errf, env=env, cwd=scratch, **kw)
        except PermissionError:
            for k in ('user', 'group', 'extra_groups'):
                kw.pop(k, None)
            p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=outf, stderr=errf, env=env, cwd=scratch, **kw)
        self.run.procs.add(p)
        last, since, hung, early, seen_viol, mem_at = None, time.monotonic(), None, False, None, 0
        while True:
            try:
                p.wait(0.05 if time.monotonic() - since < 2 else 0.3)
                break
            except subprocess.TimeoutExpired:
                pass
            mark = self.mark(report)
            if mark != last:
                last, since = mark, time.monotonic()
            elif time.monotonic() - since > hang:
                hung = 'hang'
                self.kill(p)
                break
            # endless allocation or output would end other processes before it ends the harness
            if time.monotonic() - mem_at > 0.2:
                mem_at = time.monotonic()
                mb = memory_mb(p.pid)
                with self.run.lock:
                    self.run.peak_mb = max(self.run.peak_mb, mb)
                if mb > self.unit.get('memory_mb', MEMORY_MB):
                    hung = 'memory'
                    self.kill(p)
                    break
            if self.run.stop:
                self.kill(p)
                break
            # a violation is on record: do not run through the rest, which may be slow
            if seen_viol is None and self.unknown_violation(report):
                seen_viol = time.monotonic()
            if seen_viol is not None and time.monotonic() - seen_viol > 3:
                early = True
                self.kill(p)
                break
            try:
                if outf.tell() is not None and os.path.getsize(outf.name) + os.path.getsize(errf.name) > 64 << 20:
                    hung = 'flood'
                    self.kill(p)
                    break
            except OSError:
                pass
        self.kill(p)
        self.run.procs.discard(p)
        mark = self.mark(report)
        self.mark_seen = mark is not None
        case, phase = mark or (None, '')
        errf.seek(0)
        err = errf.read()[-60000:].decode('utf-8', 'replace')
        outf.close(); errf.close()
        try:
            with open(report, errors='replace') as f:
                text = f.read()
        except OSError:
            text = ''
        shutil.rmtree(base, ignore_errors=True)
        if early:
            return 'stopped', case, phase, text[:text.rfind('\n') + 1], err, p.returncode
        if self.run.stop and not hung and not text.endswith('END\n'):
            return 'stopped', case, phase, text, err, p.returncode
        if hung:
            return hung, case, phase, text, err, p.returncode
        if text.endswith('END\n') and p.returncode == 0:
            return 'ok', case, phase, text, err, 0
        if re.search(r'^B\t', text, re.M) or p.returncode == 3:
            return 'broken', case, phase, text, err, p.returncode
        return 'crash', case, phase, text, err, p.returncode

    def unknown_violation(self, report):
        try:
            if os.path.getsize(report) == 0:
                return False
            with open(report, errors='replace') as f:
                text = f.read()
        except OSError:
            return False
        return any(self.run.known.match(m.group(1)) is None for m in re.finditer(r'^V\t\d+\t([^\t\n]*)\t', text, re.M))

    @staticmethod
    def mark(report):
        try:
            with open(report + '.mark', 'rb') as f:
                b = f.read(4096)
            c = int.from_bytes(b[:8], 'little')
            ph = b[8:496].split(b'\0')[0].decode('utf-8', 'replace')
            return (None if c == (1 << 64) - 1 else c, ph)
        except OSError:
            return None

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            p.kill()
        except ProcessLookupError:
            pass
        p.wait()

    def go(self):
        lo = self.lo
        hang = self.unit.get('hang', 40)
        while lo < self.hi and not self.run.stop:
            st, case, phase, text, err, rc = self.exec(lo, self.hi, hang)
            self.run.absorb(self.unit, text)
            if st in ('ok', 'stopped'):
                return
            if st == 'broken':
                m = re.search(r'^B\t\d+\t(.*)$', text, re.M)
                self.run.error('%s: %s' % (self.unit['harness'], (m.group(1) if m else '') + err[-1500:]))
                return
            if case is None and self.mark_seen and (st in RUNAWAY or rc in (-4, -6, -7, -8, -11) or sanitizer_key(err, rc)):
                case, phase = lo, 'setup'   # what the library did to the harness before the first case
            if case is None:
                self.run.error('%s died before its first case (rc %s): %s' % (self.unit['harness'], rc, err[-1500:]))
                return
            if st == 'crash':
                k = sanitizer_key(err, rc)
                if k is None:
                    sig = -rc if rc < 0 else rc
                    if sig == 9:
                        self.run.error('%s was killed (case %s, %s)' % (self.unit['harness'], case, phase))
                        return
                    k = ('signal:%s:%s' % (sig, phase_key(phase)), 'died with status %s' % rc)
                self.run.violation(self.unit, case, k[0], k[1] + ' during "' + phase + '"', err)
            else:   # hang, or memory or output without end: judged on a second run of that very case
                st2, c2, ph2, t2, e2, rc2 = self.exec(case, case + 1, hang * 2)
                self.run.absorb(self.unit, t2)
                if st2 in RUNAWAY:
                    self.run.violation(self.unit, case, st2 + ':' + phase_key(ph2), '%s during "%s" (twice)' % (RUNAWAY[st2], ph2), err)
                elif st2 == 'crash':
                    k = sanitizer_key(e2, rc2) or ('signal:%s:%s' % (-rc2, phase_key(ph2)), 'died with status %s' % rc2)
                    self.run.violation(self.unit, case, k[0], k[1] + ' during "' + ph2 + '"', e2)
                else:
                    with self.run.lock:
                        self.run.stats['inconclusive.hang-not-repeated'] = self.run.stats.get('inconclusive.hang-not-repeated', 0) + 1
            self.restarts += 1
            if self.restarts > 12:
                return
            lo = case + 1


RUNAWAY = {'hang': 'no progress', 'memory': 'memory use without end', 'flood': 'output without end'}
MEMORY_MB = 3000


def memory_mb(pid):
    """Anonymous resident memory of a process and its descendants"""
    kb, todo = 0, [str(pid)]
    while todo:
        d = '/proc/' + todo.pop()
        try:
            with open(d + '/status') as f:
                for line in f:
                    if line.startswith('RssAnon:'):
                        kb += int(line.split()[1])
                        break
            for t in os.listdir(d + '/task'):
                with open('%s/task/%s/children' % (d, t)) as f:
                    todo += f.read().split()
        except (OSError, ValueError):
            pass
    return kb >> 10


def phase_key(phase):
    return re.sub(r'[^A-Za-z0-9_.-]+', '-', phase.split(' ')[0])[:60] or 'start'


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.stats, self.states, self.samples = {}, set(), []
        self.viols, self.errors, self.known_hits = [], [], {}
        self.stop = False
        self.peak_mb = 0
        self.procs = set()
        self.known = Known(prop['id'])
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop['id'])
        os.chmod(self.tmp, 0o755)

    def absorb(self, unit, text):
        with self.lock:
            pend = []
            for line in text.split('\n'):
                f = line.split('\t')
                if f[0] == 'S' and len(f) == 3:
                    if f[1].startswith('max.'):
                        self.stats[f[1]] = max(self.stats.get(f[1], 0), int(f[2]))
                    else:
                        self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
                elif f[0] == 'H':
                    self.states.add(f[1])
                elif f[0] == 'X' and len(self.samples) < 6:
                    self.samples.append(unesc(f[1])[:800])
                elif f[0] == 'V' and len(f) >= 4:
                    pend.append((int(f[1]), f[2], unesc(f[3])))
        for c, k, d in pend:
            self.violation(unit, c, k, d, '')

    def violation(self, unit, case, key, detail, err):
        with self.lock:
            k = self.known.match(key)
            if k:
                self.known_hits.setdefault(key, k)
                return
            self.viols.append({'unit': unit['_id'], 'harness': unit['harness'], 'flavor': unit['flavor'],
                               'case': case, 'key': key, 'detail': detail[:4000], 'stderr': err[-12000:]})
            if len(self.viols) >= 3:
                self.stop = True
            else:
                threading.Timer(4.0, self.halt).start()

    def halt(self):
        self.stop = True

    def error(self, msg):
        with self.lock:
            self.errors.append(msg)

    def units(self, only=None):
        out = []
        for i, u in enumerate(self.prop['units']):
            u = dict(u)
            u['_id'] = i
            n = u.get('thorough' if self.tier == 'thorough' else 'quick', 0)
            if not n or (only is not None and i != only):
                continue
            u['_n'] = n
            out.append(u)
        return out

    def build(self, units):
        progs = build.build_many([{k: u[k] for k in ('harness', 'flavor', 'comps', 'wrap', 'extra_src', 'defs', 'name', 'plugins') if k in u}
                                  for u in units])
        for u, p in zip(units, progs):
            u['_exe'] = p
        for u in units:
            for fn in u.get('prepare', []):
                import prepare
                getattr(prepare, fn)(self, u)

    def main(self):
        t0 = time.monotonic()
        # stale evidence must not survive a run that fails
        os.makedirs(EVID, exist_ok=True)
        ev = os.path.join(EVID, self.prop['id'] + '.json')
        try:
            os.unlink(ev)
        except OSError:
            pass
        try:
            return self._main(t0, ev)
        finally:
            self.stop = True
            for p in list(self.procs):
                Shard.kill(p)
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _main(self, t0, ev):
        units = self.units()
        try:
            self.build(units)
        except build.BuildError as e:
            # a workload that itself uses what the property promises to be usable has a fallback which reports it
            again = [u for u in units if 'fallback' in u]
            for u in again:
                u['defs'] = u.get('defs', []) + u['fallback']
            try:
                if not again:
                    raise e
                self.build(units)
            except build.BuildError as e2:
                sys.stderr.write('BUILD FAILED\n%s\n' % e2)
                return 2
        t_build = time.monotonic() - t0
        # longest units first; each unit is split over its shards
        shards = []
        for u in units:
            ns = min(u.get('shards', 8), u['_n'])
            step = -(-u['_n'] // ns)
            for i in range(ns):
                lo, hi = i * step, min(u['_n'], (i + 1) * step)
                if lo < hi:
                    shards.append((u.get('weight', 1), Shard(self, u, len(shards), lo, hi)))
        slots = threading.Semaphore(8)
        cap = {'free': 8}
        cond = threading.Condition()

        def work(weight, s):
            try:
                s.go()
            except Exception as e:   # machinery failure
                self.error('driver: %r' % e)
            finally:
                with cond:
                    cap['free'] += weight
                    cond.notify_all()
        threads = []
        for w, s in shards:
            with cond:
                while cap['free'] < w and cap['free'] < 8:
                    cond.wait()
                cap['free'] -= w
            th = threading.Thread(target=work, args=(w, s))
            th.start()
            threads.append(th)
        for th in threads:
            th.join()

        if not self.viols and not self.errors:
            for name, least in self.prop.get('min_obs', {}).items():
                if self.stats.get(name, 0) < least:
                    self.errors.append('vacuous run: %s observed %d times, at least %d expected'
                                       % (name, self.stats.get(name, 0), least))
        wall = time.monotonic() - t0
        self.write_evidence(ev, wall, t_build)
        for k in self.known.items:
            # a listed finding is reported by its own probe on every run
            if k['seen']:
                print('KNOWN-FINDING: property=%s %s' % (self.prop['id'], k['what']))
        if self.viols:
            os.makedirs(REPLAYS, exist_ok=True)
            v = self.viols[0]
            path = os.path.join(REPLAYS, '%s-%s-%d.json' % (self.prop['id'], self.tier, self.seed))
            with open(path, 'w') as f:
                json.dump({'property': self.prop['id'], 'tier': self.tier, 'seed': self.seed, 'violations': self.viols,
                           'how': 'python3 /verif/run.py replay ' + path}, f, indent=1)
            for v in self.viols[:3]:
                print('%s [%s/%s case %s] %s' % (v['key'], v['harness'], v['flavor'], v['case'], v['detail'][:1500]))
                if v['stderr']:
                    print(v['stderr'][:3500])
            print('VIOLATION property=%s replay=%s' % (self.prop['id'], path))
            return 1
        if self.errors:
            for e in self.errors:
                sys.stderr.write('CHECK ERROR: %s\n' % e)
            return 2
        print('%s %s seed=%d: held; %d cases, %d distinct situations, %.1f s (build %.1f s)'
              % (self.prop['id'], self.tier, self.seed, self.stats.get('cases', 0), len(self.states), wall, t_build))
        return 0

    def write_evidence(self, ev, wall, t_build):
        with open(ev + '.tmp', 'w') as f:
            json.dump({
                'property': self.prop['id'], 'tier': self.tier, 'seed': self.seed, 'level': self.prop.get('level', 'exploration'),
                'coverage': {
                    'evaluations': self.stats.get('evaluations', 0),
                    'distinct_nontrivial': len(self.states),
                    'rule': self.prop['rule'],
                    'samples': self.samples or ['(none)'],
                    'observed': {k: v for k, v in sorted(self.stats.items()) if k != 'evaluations'},
                    'peak_memory_mb_of_one_process': self.peak_mb,
                    'units': [{'harness': u['harness'], 'build': u['flavor'] + (' under valgrind memcheck' if u.get('valgrind') else ''),
                               'cases': u['_n']} for u in self.units()],
                    'known_findings_seen': sorted(self.known_hits),
                },
                'assumptions': self.prop.get('assumptions', []),
                'wall_s': round(wall, 2),
                'violations': len(self.viols),
            }, f, indent=1)
        os.rename(ev + '.tmp', ev)


def replay(path, props):
    with open(path) as f:
        r = json.load(f)
    prop = [p for p in props if p['id'] == r['property']][0]
    bad = 0
    for v in r['violations']:
        run = Run(prop, 'thorough' if r['tier'] == 'thorough' else 'quick', r['seed'])
        try:
            units = run.units(only=v['unit'])
            run.build(units)
            s = Shard(run, units[0], 0, v['case'], v['case'] + 1)
            s.go()
            for x in run.viols:
                print('reproduced: %s [%s/%s case %s]\n%s\n%s' % (x['key'], x['harness'], x['flavor'], x['case'], x['detail'], x['stderr'][:6000]))
            print('%d violation(s) on replay of case %s' % (len(run.viols), v['case']))
            bad += bool(run.viols)
        finally:
            run.stop = True
            shutil.rmtree(run.tmp, ignore_errors=True)
    return 1 if bad else 0
