"""What every check needs: a build of /repo in a scratch directory, the
recorders, TLC, the known findings, violations and evidence."""
import collections
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LA_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
HARNESS = os.path.join(HERE, 'harness')
PY27 = '/opt/py27/usr/bin/python2.7'
TLAJAR = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')
OUT = os.environ.get('LA_OUT', HERE)
REPLAYS = os.path.join(OUT, 'replays')


import tour as tourmod                                        # noqa: E402


class NoAnswer(Exception):
    pass


def py_env(**kw):
    env = {'HOME': '/root', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
           'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'PYTHONNOUSERSITE': '1', 'OPENBLAS_NUM_THREADS': '1',
           'OMP_NUM_THREADS': '1',
           'C_INCLUDE_PATH': '/opt/py27/usr/include:/opt/py27/usr/include/python2.7'}
    env.update(kw)
    return env


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


SETUP = ('from distutils.core import setup\n'
         'from distutils.extension import Extension\n'
         'setup(name="cflabel", ext_modules=[Extension("cflabel", ["cflabel.c"],'
         ' extra_compile_args=["-w"])])\n')


class Run(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.unjudged = []
        self.quick = tier == 'quick'
        self.scratch = tempfile.mkdtemp(prefix='laverif-')
        self.la = os.path.join(self.scratch, 'tree')
        self.violations = []          # (key, clauses, event, how)
        self.known = []
        self.cov = collections.OrderedDict()
        self.assumptions = []
        self.samples = []
        self.clib = None

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # Building -----------------------------------------------------------
    def build(self):
        os.mkdir(self.la)
        dst = os.path.join(self.la, 'la')
        shutil.copytree(os.path.join(REPO, 'la'), dst,
                        ignore=shutil.ignore_patterns('*.pyc', '*.so', '__pycache__'))
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(self._ext, 'pyx')
            b = ex.submit(self._ext, 'c') if self.prop == 'C14' else None
            so = a.result()
            if b is not None:
                self.clib = b.result()
        shutil.copy(so, os.path.join(dst, 'cflabel.so'))
        p = subprocess.run([PY27, '-c', 'import sys; sys.path.insert(0, sys.argv[1]); '
                            'import la; print(la.__file__)', self.la], cwd=self.scratch,
                           env=py_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode:
            raise NoAnswer('la does not import:\n' + p.stdout)

    def _ext(self, kind):
        d = self.path('ext_' + kind)
        os.mkdir(d)
        src = os.path.join(REPO, 'la', 'src')
        env = py_env()
        if kind == 'pyx':
            shutil.copy(os.path.join(src, 'cflabel.pyx'), d)
            cmd = [PY27, '-m', 'cython', 'cflabel.pyx', '-o', 'cflabel.c']
            p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode:
                raise NoAnswer('cflabel.pyx does not build:\n' + p.stdout)
        else:
            shutil.copy(os.path.join(src, 'cflabel.c'), d)
        p = subprocess.run([PY27, '-c', SETUP, 'build_ext', '--inplace'], cwd=d,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        so = os.path.join(d, 'cflabel.so')
        if p.returncode or not os.path.exists(so):
            raise NoAnswer('cflabel.c does not compile:\n' + p.stdout)
        return so

    # Running python 2.7 --------------------------------------------------
    def python(self, script, args, timeout, extra_env=None):
        env = py_env()
        if self.clib:
            env['LA_CFLABEL_C'] = self.clib
        env.update(extra_env or {})
        cmd = [PY27, os.path.join(HARNESS, script)] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, cwd=self.scratch, env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True, preexec_fn=limit_memory,
                               errors='replace')
        except subprocess.TimeoutExpired as e:
            return -99, str(e.stdout or '')
        return p.returncode, p.stdout

    # TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=2, mem='3g', timeout=800, args=(),
            name='tlc'):
        md = tempfile.mkdtemp(prefix='md-', dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss16m', '-cp', TLAJAR,
               'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-config',
               cfg, '-noGenerateSpecTE'] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise NoAnswer('TLC did not finish in %d s' % timeout)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout

    def judge(self, module, f):
        """Let TLC judge the recording f.  A step that TLC cannot evaluate
        (numbers beyond its 32 bits, mostly) is left out, and counted; one
        whose outcome does not have the form the specification reads is broken."""
        form = ''
        for _ in range(13):
            rc, out = self.tlc(module + '.tla', module + '.cfg', {'TRACE': f}, workers=2)
            if rc == 0 and 'Model checking completed' in out:
                return out + form
            k = out.find('Error')
            err = out[k:k + 3000]
            at = dict(re.findall(r'^/\\ (hist|chain|pos) = (-?\d+)', out, re.M))
            with open(f) as h:
                lines = h.readlines()
            try:
                if module == 'Trace':
                    i = int(at['pos']) + 64 - 1
                    what = json.loads(lines[i])
                    lines[i] = json.dumps({
                        'id': what['id'], 'op': 'unjudged', 'x': [], 'post': [], 'alias': 0,
                        'out': {'st': 'err', 'exc': ''}}) + '\n'
                else:
                    i = int(at['hist']) - 1
                    hist = json.loads(lines[i])
                    what = hist['ev'][int(at['pos'])]
                    hist['ev'] = hist['ev'][:int(at['pos'])]
                    lines[i] = json.dumps(hist) + '\n'
            except (KeyError, IndexError, ValueError):
                raise NoAnswer('TLC failed:\n' + err)
            if 'Attempted to ' in err and 'Overflow' not in err:
                form += '\n<<"BROKEN", %d, %s{"form"}>>' % (
                    i, '' if module == 'Trace' else at['pos'] + ', ')
            else:
                self.unjudged.append(('Overflow' in err[:200], err, what))
            with open(f, 'w') as h:
                h.writelines(lines)
        if form:
            return out + form
        raise NoAnswer('TLC failed:\n' + err)

    # Recording calls and judging them -------------------------------------
    def shard(self, i, n, only=None):
        f = self.path('trace-%d.ndjson' % i)
        seed = self.seed * 1000 + i
        env = {'ONLY': only} if only else {}
        rc, out = self.python('driver.py', [self.la, self.prop, n, seed, f],
                              700, env)
        lines = []
        if os.path.exists(f):
            with open(f) as h:
                for l in h:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        died = None
        if rc == -99 or rc < 0:
            died = rc
        elif rc != 0:
            raise NoAnswer('the recorder failed (%s):\n%s' % (rc, out[-3000:]))
        return f, lines, died, out

    def record_and_judge(self, n, shards=4, clauses=None, only=None):
        """Record about n calls and let TLC judge them.  clauses: function of
        (event, broken clauses) that picks the clauses that count here."""
        per = max(50, n // shards)

        def one(i):
            f, ev, died, out = self.shard(i, per, only)
            if not ev:
                raise NoAnswer('nothing was recorded:\n' + out[-3000:])
            if died is not None:
                with open(f, 'w') as h:
                    for k, e in enumerate(ev):
                        e['id'] = k
                        h.write(json.dumps(e) + '\n')
            tout = self.judge('Trace', f)
            return ev, tout, died, out, i

        ops = collections.Counter()
        broken = collections.Counter()
        total = vac = states = 0
        distinct = set()
        skipped = 0
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for ev, tout, died, out, i in res:
            total += len(ev)
            for e in ev:
                ops[e['op']] += 1
            vs = set(int(z) for z in re.findall(r'<<"VACUOUS", (\d+)>>', tout))
            vac += len(vs)
            m = re.search(r'(\d+) states generated, (\d+) distinct', tout)
            states += int(m.group(2)) if m else 0
            for k, e in enumerate(ev):
                if k not in vs and e['out']['st'] == 'ok':
                    distinct.add(hash(json.dumps([e['op'], e['x'], e['out'],
                                                  e.get('ax'), e.get('f')],
                                                 sort_keys=True)))
            m = re.search(r'skipped (\d+)', out)
            skipped += int(m.group(1)) if m else 0
            for num, cl in re.findall(r'<<"BROKEN", (\d+), \{([^}]*)\}>>', tout):
                e = ev[int(num)]
                cl = [c.strip().strip('"') for c in cl.split(',')]
                if clauses is not None:
                    cl = clauses(e, cl)
                if cl:
                    broken[e['op']] += 1
                    self.violation(e['op'], cl, e, {'shard': i, 'per': per})
            if died is not None:
                self.violation('crash', ['the process %s' % (
                    'did not finish' if died == -99 else 'died of signal %d' % -died)],
                    {'op': 'crash', 'output': out[-2000:]}, {'shard': i, 'per': per})
        if skipped * 5 > total:
            raise NoAnswer('%d of %d calls could not be made' % (skipped, total))
        for e in res[0][0][:3]:
            self.samples.append(e)
        c = self.cov
        c['evaluations'] = c.get('evaluations', 0) + total
        c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + len(distinct)
        c['unspecified_outcomes'] = vac
        c['skipped'] = skipped
        c['tlc_states'] = c.get('tlc_states', 0) + states
        c.setdefault('calls_per_operation', {}).update(sorted(ops.items()))

    # All calls with small operands -----------------------------------------
    def small(self, shards, clauses=None):
        """Check the laws on every call that Small lists, make all these calls and
        let TLC judge them."""
        f = self.path('small.ndjson')
        rc, out = self.tlc('Small.tla', 'Small.cfg', mem='6g', workers=4, env={
            'PROP': self.prop, 'TIER': self.tier, 'CALLS': f})
        if rc != 0 or 'Model checking completed' not in out:
            k = out.find('Error')
            raise NoAnswer('the laws of Small failed:\n%s' % out[k:k + 3000])
        fates = collections.Counter(re.findall(r'<<"FATE", "(\w+)", "(\w+)">>', out))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        n = sum(fates.values())

        def one(i):
            g = self.path('small-%d.ndjson' % i)
            return self.judged('replay.py', [self.la, self.prop, f, g, self.seed, i, shards],
                               g, 'Trace') + (i,)
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        total = vac = 0
        ok = set()
        for evs, tout, died, out, i in res:
            total += len(evs)
            vs = set(int(z) for z in re.findall(r'<<"VACUOUS", (\d+)>>', tout))
            vac += len(vs)
            for k, e in enumerate(evs):
                if k not in vs and e['out']['st'] == 'ok':
                    ok.add(hash(json.dumps([e['op'], e['x'], e['out'], e.get('ax'), e.get('f')],
                                           sort_keys=True)))
            for num, cl in re.findall(r'<<"BROKEN", (\d+), \{([^}]*)\}>>', tout):
                e = evs[int(num)]
                cl = [c.strip().strip('"') for c in cl.split(',')]
                if clauses is not None:
                    cl = clauses(e, cl)
                if cl:
                    self.violation(e['op'], cl, e, {'small': i, 'event': int(num)})
            if died is not None:
                self.violation('crash', ['the process %s' % (
                    'did not finish' if died == -99 else 'died of signal %d' % -died)],
                    {'op': 'crash', 'output': out[-2000:]}, {'small': i})
        c = self.cov
        c['evaluations'] = c.get('evaluations', 0) + total
        c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + len(ok)
        c['small_calls'] = n
        c['small_calls_lawful'] = sum(v for k, v in fates.items() if k[1] == 'lawful')
        c['small_calls_by_operation'] = dict(
            ('%s %s' % k, v) for k, v in sorted(fates.items()))
        c['small_unspecified_outcomes'] = vac
        self.modelled('Small', m)

    # Histories of the archive ----------------------------------------------
    def judged(self, script, args, f, module, env=None, timeout=700):
        """Run a recorder that writes f and let TLC judge it."""
        rc, out = self.python(script, args, timeout, env)
        lines = []
        if os.path.exists(f):
            with open(f) as h:
                for l in h:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        died = rc if rc == -99 or rc < 0 else None
        if died is None and rc != 0 or not lines:
            raise NoAnswer('the recorder failed (%s):\n%s' % (rc, out[-3000:]))
        if died is not None:
            with open(f, 'w') as h:
                for e in lines:
                    h.write(json.dumps(e) + '\n')
        tout = self.judge(module, f)
        m = re.search(r'(\d+) states generated, (\d+) distinct', tout)
        self.cov['tlc_states'] = self.cov.get('tlc_states', 0) + int(m.group(2) if m else 0)
        m = re.search(r'skipped (\d+)', out)
        skipped = int(m.group(1)) if m else 0
        if skipped * 5 > len(lines):
            raise NoAnswer('%d recordings failed:\n%s' % (skipped, out[-3000:]))
        return lines, tout, died, out

    def histories(self, n, shards, keep, script='hist_archive.py',
                  module='ArchiveTrace', what='histories', plans=None):
        """Histories judged step by step.  plans: behaviours to replay.
        keep(event, clauses) picks the clauses that count here."""
        def one(i):
            f = self.path('%s-%d.ndjson' % (what, i))
            env = {}
            if plans is not None:
                pf = self.path('%s-%d.plan' % (what, i))
                with open(pf, 'w') as h:
                    for p in plans[i::shards]:
                        h.write(json.dumps(p) + '\n')
                env['LA_PLAN'] = pf
            args = [self.la, self.prop, max(1, n // shards), self.seed * 1000 + i, f]
            if plans is not None and not plans[i::shards]:
                return [], '', None, '', i
            return self.judged(script, args, f, module, env) + (i,)

        steps = collections.Counter()
        distinct = set()
        nh = 0
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for hs, tout, died, out, i in res:
            nh += len(hs)
            for h in hs:
                for e in h['ev']:
                    steps[e['op']] += 1
                    if e['out']['st'] == 'ok':
                        distinct.add(hash(json.dumps(
                            [e['op'], e.get('key'), e.get('x'), e.get('obs'), e['out']],
                            sort_keys=True)))
            for a, b, cl in re.findall(r'<<"BROKEN", (\d+), (\d+), \{([^}]*)\}>>', tout):
                h = hs[int(a)]
                e = h['ev'][int(b)]
                cl = keep(e, [c.strip().strip('"') for c in cl.split(',')])
                if cl:
                    first = max(0, int(b) - 40)
                    ev = dict(e, history=[
                        dict((k, z[k]) for k in ('op', 'key', 'var', 'over', 'refs') if k in z)
                        for z in h['ev'][first:int(b) + 1]])
                    self.violation(e['op'], cl, ev, {'shard': i, what: int(a),
                                                     'step': int(b)})
            if died is not None:
                self.violation('crash', ['the process %s' % (
                    'did not finish' if died == -99 else 'died of signal %d' % -died)],
                    {'op': 'crash', 'output': out[-2000:]}, {'shard': i})
        e0 = ([h for r in res for h in r[0] if h['ev']] or [{'ev': []}])[0]['ev']
        self.samples.append({what: [dict((k, z.get(k)) for k in ('op', 'key', 'out'))
                                    for z in e0[:8]]})
        c = self.cov
        c['evaluations'] = c.get('evaluations', 0) + sum(steps.values())
        c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + len(distinct)
        c[what] = nh
        c.setdefault('steps_per_operation', {})[what] = dict(sorted(steps.items()))

    def model(self, module, cfg=None, args=(), timeout=800, mem='4g', workers=4):
        """Model check a module; every property of the design must hold."""
        rc, out = self.tlc(module + '.tla', (cfg or module) + '.cfg', workers=workers,
                           args=args, timeout=timeout, mem=mem)
        if rc != 0 or 'Model checking completed' not in out:
            k = out.find('Error')
            raise NoAnswer('model checking %s failed:\n%s' % (module, out[k:k + 3000]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        self.modelled(cfg or module, m)
        return out

    def modelled(self, name, m):
        self.cov.setdefault('model_states', {})[name] = int(m.group(2))
        self.cov.setdefault('model_transitions', {})[name] = int(m.group(1))

    def tour(self, module, cfg, fraction, maxlen=120):
        """Walks that take the transitions of a model."""
        out = self.model(module, cfg)
        es = tourmod.edges(out)
        ws, total, states = tourmod.walks(es, maxlen, self.seed, fraction)
        self.cov.setdefault('model_transitions_replayed', {})[cfg] = '%d of %d, %d states' % (
            total, len(set(json.dumps(e, sort_keys=True) for e in es)), states)
        return ws

    def repacks(self, n, shards):
        def one(i):
            f = self.path('repack-%d.ndjson' % i)
            args = [self.la, self.prop, max(1, n // shards), self.seed * 1000 + i, f]
            return self.judged('hist_repack.py', args, f, 'RepackTrace') + (i,)
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        kinds = collections.Counter()
        for evs, tout, died, out, i in res:
            for e in evs:
                kinds[e['kind']] += 1
            for a, cl in re.findall(r'<<"BROKEN", (\d+), \{([^}]*)\}>>', tout):
                e = evs[int(a)]
                self.violation('repack', [c.strip().strip('"') for c in cl.split(',')], e,
                               {'shard': i, 'event': int(a)})
            if died is not None:
                self.violation('crash', ['the recorder died'],
                               {'op': 'crash', 'output': out[-2000:]}, {'shard': i})
        c = self.cov
        c['evaluations'] = c.get('evaluations', 0) + sum(kinds.values())
        c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + sum(kinds.values())
        c['repacks_interrupted'] = dict(sorted(kinds.items()))

    # Verdict --------------------------------------------------------------
    def violation(self, key, clauses, event, how):
        self.violations.append((key, clauses, event, how))

    def known_findings(self):
        out = []
        p = os.path.join(HERE, 'known_findings.txt')
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) match=(\{.*\}) what=(.*)$', l)
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
        return [k for k in out if k[0] == self.prop]

    def finish(self, level, wall):
        known = self.known_findings()
        fresh = []
        seen = set()
        for v in self.violations:
            for p, match, what in known:
                if all(v[2].get(k) == w for k, w in match.items()):
                    seen.add(what)
                    break
            else:
                fresh.append(v)
        for what in sorted(seen):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        shown = 0
        byop = collections.OrderedDict()
        for v in fresh:
            byop.setdefault((v[0], tuple(sorted(v[1]))), []).append(v)
        for (op, cl), vs in byop.items():
            if shown >= 8:
                break
            shown += 1
            d = os.path.join(REPLAYS, self.prop)
            os.makedirs(d, exist_ok=True)
            v = min(vs, key=lambda v: len(json.dumps(v[2])))
            f = os.path.join(d, '%s-%d.json' % (op, shown))
            with open(f, 'w') as h:
                json.dump({'property': self.prop, 'tier': self.tier,
                           'seed': self.seed, 'where': v[3], 'clauses': list(cl),
                           'occurrences': len(vs), 'event': v[2]}, h, indent=1,
                          sort_keys=True)
            print('%s: %s (%d times)' % (op, ', '.join(cl), len(vs)))
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
        if self.unjudged and not fresh:
            hard = [u for u in self.unjudged if not u[0]]
            if hard or len(self.unjudged) > 10:
                u = (hard or self.unjudged)[0]
                raise NoAnswer('%d steps could not be evaluated; the first:\n%s\n%s' % (
                    len(self.unjudged), json.dumps(u[2])[:2000], u[1]))
        cov = dict(self.cov)
        cov['not_evaluated'] = len(self.unjudged)
        cov['samples'] = self.samples[:6]
        if level == 'model_checking':
            cov['states'] = sum(cov.get('model_states', {}).values())
            cov['transitions'] = sum(cov.get('model_transitions', {}).values())
            cov['traces_validated_against_impl'] = cov.pop('evaluations', 0)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(fresh)}
        with open(os.path.join(OUT, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, sort_keys=True)
        print('%s %s: %s, %.1f s, violations %d' % (
            self.prop, self.tier, ', '.join('%s %s' % (k, v) for k, v in cov.items()
                                            if isinstance(v, int)), wall, len(fresh)))
        return 1 if fresh else 0
