# Python 2.7.  hist_repack.py LADIR PROP N SEED OUT: interrupted repacks.
#
# Repacks archives in a forked process that is stopped, or made to fail, at
# every line of la that the repacking executes, at every call that copies,
# and by a limit on the file size, and writes down which archives are then
# on disk.  Judged by RepackTrace.tla.
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import traceback

import hist_archive as ha
from hist_archive import la, h5py, np, rec, gen, ladir, n, seed, out

LADIR = os.path.join(os.path.abspath(ladir), 'la') + os.sep


class Injected(IOError):
    pass


class Tracer(object):
    "Do something at the nth line executed in la."
    def __init__(self, at, action):
        self.at, self.action, self.count = at, action, 0

    def __call__(self, frame, event, arg):
        if not os.path.abspath(frame.f_code.co_filename).startswith(LADIR):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.count == self.at:
                self.action()
        return self.local


class CopyFault(object):
    "Make the nth call that copies fail, before or after its effect."
    def __init__(self, at, after):
        self.at, self.after, self.count, self.depth = at, after, 0, 0

    def wrap(self, owner, name):
        real = getattr(owner, name)
        if hasattr(real, 'im_func'):
            real = real.im_func

        def fn(*args, **kwargs):
            if self.depth:
                return real(*args, **kwargs)
            self.count += 1
            hit = self.count == self.at
            if hit and not self.after:
                raise Injected('injected')
            self.depth += 1
            try:
                r = real(*args, **kwargs)
            finally:
                self.depth -= 1
            if hit:
                raise Injected('injected')
            return r
        setattr(owner, name, fn)

    def install(self):
        G = h5py.Group
        for name in ('copy', 'create_dataset', 'create_group', '__setitem__',
                     'require_group', 'require_dataset', 'move'):
            self.wrap(G, name)
        self.wrap(h5py.AttributeManager, '__setitem__')
        self.wrap(h5py.Dataset, '__setitem__')
        for name in ('copyfile', 'copy', 'copy2', 'copyfileobj'):
            self.wrap(shutil, name)


def archive_of(path):
    "The content of an archive, read by another process; None if not readable."
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                if os.path.getsize(path) == 0:
                    raise IOError('empty')
                f = h5py.File(path, 'r')
                try:
                    res = []
                    for k in la.archive_directory(f):
                        y = la.load(f, str(k))
                        res.append((str(k), y.x, y.label))
                finally:
                    f.close()
                data = pickle.dumps(res, 2)
            except Exception:
                data = pickle.dumps(None, 2)
            with os.fdopen(w, 'wb') as h:
                h.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    try:
        res = pickle.loads(data)
    except Exception:
        res = None
    if res is None:
        return None
    return [(k, la.larry(x, label)) for k, x, label in res]


def enc(obs):
    return [{'key': ha.path_of(str(k)), 'v': rec.Sn(y), 'dt': y.x.dtype.str}
            for k, y in obs]


def scenario(src, how, kind, at):
    """Repack a copy of src in a child; return (report, files)."""
    d = tempfile.mkdtemp(prefix='r', dir=os.path.dirname(src))
    fn = os.path.join(d, 'arch.hdf5')
    shutil.copyfile(src, fn)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(60)
            rep = {'raised': 0, 'lines': 0, 'calls': 0, 'again': None}
            io = la.IO(fn)
            f = h5py.File(fn) if how == 2 else None
            fault = CopyFault(at if kind in ('before', 'after') else None,
                              kind == 'after')
            fault.install()

            def action():
                if kind == 'crash':
                    os._exit(9)
                if kind == 'interrupt':
                    raise KeyboardInterrupt
                raise Injected('injected')
            t = Tracer(at if kind in ('crash', 'raise', 'interrupt') else None,
                       action)
            if kind == 'full':
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE,
                                   (at, resource.RLIM_INFINITY))
            sys.settrace(t)
            try:
                if how == 0:
                    io.repack()
                elif how == 1:
                    la.io.repack(fn)
                else:
                    la.io.repack(f).close()
            except BaseException:
                rep['raised'] = 1
            finally:
                sys.settrace(None)
            if kind == 'full':
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,
                                                           resource.RLIM_INFINITY))
            rep['lines'], rep['calls'] = t.count, fault.count
            if kind in ('before', 'after', 'full', 'none'):
                fault.at = None
                try:
                    io = la.IO(fn)
                    rep['again'] = [(k, y[:].x, y.label) for k, y in io.items()]
                except Exception:
                    rep['again'] = None
            with os.fdopen(w, 'wb') as h:
                h.write(pickle.dumps(rep, 2))
        except BaseException:
            code = 5
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    rep = pickle.loads(data) if data else None
    files = []
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        files.append((name == 'arch.hdf5', archive_of(p)))
    shutil.rmtree(d)
    return rep, status, files


def event(want, kind, how, at, rep, files):
    e = {'op': 'repack', 'kind': kind, 'how': how, 'at': at, 'want': enc(want),
         'raised': rep['raised'] if rep else 1, 'finished': 1 if rep else 0,
         'files': [{'own': 1 if own else 0, 'readable': 1 if obs is not None else 0,
                    'obs': enc(obs or [])} for own, obs in files],
         'hasagain': 0, 'again': []}
    if rep and rep['again'] is not None:
        e['hasagain'] = 1
        e['again'] = enc([(k, la.larry(x, label)) for k, x, label in rep['again']])
    return e


def one_archive(g, base, R, emit, quick):
    h = ha.History(g, base, R)
    for _ in range(g.ri(1, 4)):
        h.do_save(bad=0)
    if g.p(0.5):
        h.do_delete()
    if g.p(0.3):
        h.do_foreign()
    if g.p(0.3):
        h.do_save(bad=0)
    if g.p(0.4):
        # larger than the buffers of HDF5
        m = g.ch([300, 700])
        la.save(h.fn, la.larry(np.arange(m)), 'big')
    want = [(str(k), la.load(h.fn, str(k))) for k in la.archive_directory(h.fn)]
    src = h.fn
    for how in ((0,) if g.p(0.5) else (g.ch([1, 2]),)):
        rep, status, files = scenario(src, how, 'none', None)
        emit(event(want, 'none', how, 0, rep, files))
        if not rep:
            return
        lines, calls = rep['lines'], rep['calls']
        every = list(range(1, lines + 1))
        for at in every:
            for kind in ('crash', 'raise', 'interrupt'):
                if kind == 'interrupt' and g.p(0.5):
                    continue
                rep, status, files = scenario(src, how, kind, at)
                emit(event(want, kind, how, at, rep, files))
        for at in range(1, calls + 1):
            for kind in ('before', 'after'):
                rep, status, files = scenario(src, how, kind, at)
                emit(event(want, kind, how, at, rep, files))
        size = os.path.getsize(src)
        for at in [0, 1, 96, 512, 800, 2048, size // 2, size * 3 // 4] + \
                [g.ri(0, size - 1) for _ in range(4)]:
            rep, status, files = scenario(src, how, 'full', at)
            emit(event(want, 'full', how, at, rep, files))
    shutil.rmtree(h.dir, ignore_errors=True)


def main():
    g = gen.G(la, 'r%s' % seed)
    np.random.seed(g.ri(0, 10 ** 6))
    R = rec.Recorder(os.devnull)
    base = tempfile.mkdtemp(prefix='larepack')
    k = [0]
    try:
        f = open(out, 'w')

        def emit(e):
            d = ha.encode([e], k[0])['ev'][0]
            d['id'] = k[0]
            f.write(json.dumps(d, sort_keys=True) + '\n')
            k[0] += 1
        while k[0] < n:
            one_archive(g, base, R, emit, True)
        f.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('recorded %d' % k[0])
    print('skipped 0')


main()
