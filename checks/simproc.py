"""Runs kerncraft processes under a scheduler that decides on every file and lock operation.

Every simulated process is a forked child of this one. Before each operation on a path below the
watched directory it asks the scheduler and waits; the scheduler lets one process continue at a
time, may kill a process at any operation, and records the operations in the order they happen.
The compiler is replaced by a stand-in that reads its inputs and writes its output through the same
operations; locks are the real advisory locks of the system.
"""
import builtins
import fcntl
import hashlib
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import traceback

ASM = '''\t.file\t"kernel.c"
\t.text
\t.globl\tkernel
kernel:
.LFB0:
\ttestl\t%ecx, %ecx
\tjle\t.L1
\txorl\t%eax, %eax
.L3:
\tmovsd\t(%rsi,%rax,8), %xmm0
\tmovsd\t%xmm0, (%rdi,%rax,8)
\taddq\t$1, %rax
\tcmpl\t%eax, %ecx
\tjg\t.L3
\txorl\t%eax, %eax
.L4:
\tvmovupd\t(%rsi,%rax), %ymm0
\tvmovupd\t%ymm0, (%rdi,%rax)
\taddq\t$32, %rax
\tcmpq\t%rax, %rdx
\tjne\t.L4
.L1:
\tret
'''


class Child(object):
    """Inside a simulated process."""

    def __init__(self, root, rfd, wfd):
        self.root, self.rfd, self.wfd = os.path.realpath(root), rfd, wfd
        self.busy = False
        self.late = []
        self.nfd = 0
        self.buf = b''
        self.real_stat = os.stat

    # -- talking to the scheduler -------------------------------------------------------------
    def send(self, msg):
        data = json.dumps(msg).encode() + b'\n'
        while data:
            data = data[os.write(self.wfd, data):]

    def receive(self):
        while b'\n' not in self.buf:
            part = os.read(self.rfd, 65536)
            if not part:
                os._exit(99)
            self.buf += part
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    orphan = None
    fail_compile = 0              # which compilation fails, half way

    def mark(self, name, path):
        """Tell that a file is being used from now on (use-begin), or no longer (use-end)."""
        rel = self.watched(path)
        if rel is not None:
            self.op(name, lambda: None, f=rel)

    def use(self, path, binary=False):
        """Use a file twice, for some time, like a user of it would; return what it held."""
        self.mark('use-begin', path)
        seen = []
        for _ in range(2):
            with builtins.open(path, 'rb') as f:
                seen.append(f.read())
        self.mark('use-end', path)
        if seen[0] != seen[1]:
            raise RuntimeError('%s changed while in use' % os.path.basename(path))
        return hashlib.sha256(seen[0]).hexdigest()[:16] + ':%d' % len(seen[0])

    def op(self, name, act, **kw):
        """Ask for and perform an operation; *act* may return 'blocked'."""
        if self.orphan:
            kw['orphan'] = self.orphan
        if self.busy:                     # closed by the garbage collector in between
            r = act()
            self.late.append(dict(kw, op=name))
            return r
        self.busy = True
        try:
            self.send(dict(kw, op=name, late=self.late))
            self.late = []
            self.receive()
            while True:
                try:
                    r = act()
                except BaseException as e:
                    self.done(type(e).__name__)
                    raise
                if r == 'blocked':
                    self.done('blocked')
                    self.receive()
                    continue
                self.done('ok')
                return r
        finally:
            self.busy = False

    def done(self, res):
        late, self.late = self.late, []
        self.send({'done': res, 'late': late})

    # -- interception -------------------------------------------------------------------------
    def watched(self, path):
        if not isinstance(path, (str, os.PathLike)):
            return None
        p = os.path.abspath(os.fspath(path))
        if isinstance(p, bytes):
            return None
        if p.startswith(self.root + '/'):
            return p[len(self.root) + 1:]
        return None

    def install(self):
        child, real_open = self, builtins.open
        real = {n: getattr(os, n) for n in ('stat', 'replace', 'rename', 'unlink', 'remove')}
        real_flock, real_rmtree = fcntl.flock, shutil.rmtree
        locks = self.locks = {}

        class Raw(io.FileIO):
            rel = None
            half = b''

            def write(self, data):
                if self.rel is None or self.rel.endswith('.lock'):
                    return io.FileIO.write(self, data)
                data = bytes(data)
                cut = max(len(data) // 2, 1)
                child.op('write', lambda: io.FileIO.write(self, data[:cut]) and None, f=self.rel, fd=self.id)
                if data[cut:]:
                    child.op('write', lambda: io.FileIO.write(self, data[cut:]) and None, f=self.rel, fd=self.id)
                return len(data)

            def close(self):
                if self.rel is None or self.closed:
                    return io.FileIO.close(self)
                rel, self.rel = self.rel, None
                locks.pop(self.fileno(), None)
                child.op('close', lambda: io.FileIO.close(self), f=rel, fd=self.id, w=int(self.writes))

        def watch_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                       closefd=True, opener=None):
            rel = child.watched(file)
            if rel is None or opener is not None:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            binary = 'b' in mode
            writes = any(c in mode for c in 'wax+')
            child.nfd += 1
            ident = child.nfd
            made = []
            kind = 'open-lock' if rel.endswith('.lock') else ('open-w' if writes else 'open-r')

            def act():
                made.append(Raw(file, mode.replace('b', '').replace('t', '')))
            child.op(kind, act, f=rel, fd=ident)
            raw = made[0]
            raw.id, raw.writes = ident, writes
            raw.rel = rel
            if rel.endswith('.lock'):
                locks[raw.fileno()] = (rel, ident)
            if buffering == 0:
                return raw
            if '+' in mode:
                buf = io.BufferedRandom(raw)
            elif writes:
                buf = io.BufferedWriter(raw, 1 << 26)
            else:
                buf = io.BufferedReader(raw)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
            text.mode = mode
            return text

        def watch_flock(fd, operation):
            num = fd if isinstance(fd, int) else fd.fileno()
            if num not in locks:
                return real_flock(fd, operation)
            rel, ident = locks[num]
            mode = {fcntl.LOCK_SH: 'SH', fcntl.LOCK_EX: 'EX', fcntl.LOCK_UN: 'UN'}.get(operation & ~fcntl.LOCK_NB)

            def act():
                try:
                    real_flock(fd, operation | fcntl.LOCK_NB)
                except BlockingIOError:
                    if operation & fcntl.LOCK_NB:
                        raise
                    return 'blocked'
            child.op('flock', act, f=rel, fd=ident, mode=mode)

        def one(name):
            def f(path, *a, **kw):
                rel = child.watched(path) if not kw.get('dir_fd') else None
                if rel is None or rel.endswith('.lock') and name == 'stat':
                    return real[name](path, *a, **kw)
                box = []
                child.op({'remove': 'unlink'}.get(name, name),
                         lambda: box.append(real[name](path, *a, **kw)), f=rel)
                return box[0]
            return f

        def two(name):
            def f(src, dst, *a, **kw):
                rel, rel2 = child.watched(src), child.watched(dst)
                if rel is None and rel2 is None:
                    return real[name](src, dst, *a, **kw)
                child.op('replace', lambda: real[name](src, dst, *a, **kw), f=rel or '', g=rel2 or '')
            return f

        def watch_rmtree(path, *a, **kw):
            rel = child.watched(path)
            if rel is None:
                return real_rmtree(path, *a, **kw)
            try:
                for n in real:
                    setattr(os, n, real[n])
                child.op('rmtree', lambda: real_rmtree(path, *a, **kw), f=rel)
            finally:
                patch()

        def patch():
            os.stat = one('stat')
            os.unlink, os.remove = one('unlink'), one('remove')
            os.replace, os.rename = two('replace'), two('rename')
        patch()
        builtins.open = io.open = watch_open
        fcntl.flock = watch_flock
        shutil.rmtree = watch_rmtree

        def compiler(cmd, *a, **kw):
            if isinstance(cmd, str):
                cmd = cmd.split()
            return child.compile([str(c) for c in cmd])

        class Done(object):
            returncode, stdout, stderr = 0, b'', b''
        subprocess.check_output = lambda cmd, *a, **kw: compiler(cmd)
        subprocess.check_call = subprocess.call = lambda cmd, *a, **kw: compiler(cmd) and 0 or 0
        subprocess.run = lambda cmd, *a, **kw: compiler(cmd) or Done

    def compile(self, cmd):
        out = cmd[cmd.index('-o') + 1]
        inputs = [c for n, c in enumerate(cmd[1:], 1)
                  if not c.startswith('-') and cmd[n - 1] != '-o' and os.path.splitext(c)[1] in ('.c', '.s', '.o')]
        flags = sorted(c for n, c in enumerate(cmd) if c != out and c not in inputs)
        h = hashlib.sha256(repr(flags).encode())
        for i in inputs:
            self.mark('use-begin', i)
        for i in inputs:
            if not self.watched(i):
                continue
            if not os.path.exists(i):
                raise subprocess.CalledProcessError(1, cmd)
            with builtins.open(i) as f:
                text = f.read()
            h.update(text.encode())
            for line in text.split('\n'):
                if line.startswith('#include "'):
                    inc = os.path.join(os.path.dirname(i), line.split('"')[1])
                    if line.split('"')[1] == 'kerncraft.h':
                        continue
                    if not os.path.exists(inc):
                        raise subprocess.CalledProcessError(1, cmd)
                    with builtins.open(inc) as f:
                        h.update(f.read().encode())
        data = ('/* ' if '-S' not in cmd else '# ') + h.hexdigest() + '\n' + (ASM if '-S' in cmd else 'x' * 40 + '\n')
        if '-S' not in cmd:
            data += 'end ' + h.hexdigest() + '\n'
        # a compiler goes on when the process that started it is killed
        if self.fail_compile:
            self.fail_compile -= 1
            if not self.fail_compile:
                with builtins.open(out, 'w') as f:
                    f.write(data[:len(data) // 2])
                raise subprocess.CalledProcessError(1, cmd)
        self.orphan = {'out': os.path.abspath(out), 'data': data}
        try:
            with builtins.open(out, 'w') as f:
                f.write(data)
        finally:
            self.orphan = None
        for i in inputs:
            self.mark('use-end', i)
        return b''


class Process(object):
    def __init__(self, num, pid, rfd, wfd):
        self.num, self.pid, self.rfd, self.wfd = num, pid, rfd, wfd
        self.buf, self.pending, self.blocked, self.retry = b'', None, False, False
        self.alive, self.result, self.ops = True, None, 0

    def read(self):
        while b'\n' not in self.buf:
            part = os.read(self.rfd, 65536)
            if not part:
                return None
            self.buf += part
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def write(self, msg):
        os.write(self.wfd, json.dumps(msg).encode() + b'\n')


class Simulation(object):
    def __init__(self, root, limit=6000, seed=0):
        import random
        self.rng = random.Random(seed)
        self.root, self.procs, self.events, self.limit = os.path.realpath(root), [], [], limit
        self.deadlock = False
        self.steps = 0
        self.orphans = []
        self.hooks = {}           # step number -> action of the outside world (edits)

    def record(self, p, op, **kw):
        self.events.append(dict(p=p, op=op, f=kw.get('f', ''), g=kw.get('g', ''), fd=kw.get('fd', 0),
                                mode=kw.get('mode', ''), w=kw.get('w', 0), res=kw.get('res', 'ok')))

    def spawn(self, fn):
        """Start a process that runs fn(child) and returns something for JSON."""
        num = len(self.procs) + 1
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                os.close(r1)
                os.close(w2)
                for p in self.procs:
                    for fd in (p.rfd, p.wfd):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                child = Child(self.root, r2, w1)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                import atexit
                exits = []
                atexit.register = lambda f, *a, **kw: exits.append((f, a, kw)) or f
                child.install()
                try:
                    try:
                        res = {'ok': fn(child)}
                    except SystemExit as e:
                        res = {'exit': str(e.code)}
                    except BaseException:
                        res = {'exc': traceback.format_exc()[-1500:]}
                    for f, a, kw in reversed(exits):
                        f(*a, **kw)
                except BaseException:
                    res = {'exc': traceback.format_exc()[-1500:]}
                child.send({'op': 'exit', 'res': res, 'late': child.late})
                child.receive()
            except BaseException:
                pass
            os._exit(0)
        os.close(w1)
        os.close(r2)
        p = Process(num, pid, r1, w2)
        self.procs.append(p)
        p.pending = p.read()
        return p

    def finish(self, p):
        p.alive = False
        for fd in (p.rfd, p.wfd):
            os.close(fd)
        try:
            os.waitpid(p.pid, 0)
        except ChildProcessError:
            pass
        for q in self.procs:
            q.retry = True

    def kill(self, p):
        os.kill(p.pid, signal.SIGKILL)
        self.record(p.num, 'kill')
        if p.pending and p.pending.get('orphan'):
            self.orphans.append(dict(p.pending['orphan'], p=p.num, at=self.steps + self.rng.randint(1, 60)))
        self.finish(p)
        p.result = {'killed': 1}

    def let_orphans_write(self, everything=False):
        """Compilers of killed processes complete their output."""
        for o in [o for o in self.orphans if everything or o['at'] <= self.steps]:
            self.orphans.remove(o)
            rel = o['out'][len(self.root) + 1:]
            if os.path.isdir(os.path.dirname(o['out'])):
                with open(o['out'], 'w') as f:
                    f.write(o['data'])
                self.record(o['p'], 'open-w', f=rel, fd=-1)
                self.record(o['p'], 'close', f=rel, fd=-1, w=1)

    def runnable(self):
        return [p for p in self.procs if p.alive and (not p.blocked or p.retry)]

    def step(self, p):
        """Let *p* perform its pending operation."""
        self.steps += 1
        m = p.pending
        if m is None:
            p.result = {'exc': 'process ended without a result'}
            self.record(p.num, 'exit')
            self.finish(p)
            return
        for e in m.pop('late', []):
            self.record(p.num, e['op'], **{k: v for k, v in e.items() if k != 'op'})
        if m['op'] == 'exit':
            p.result = m['res']
            self.record(p.num, 'exit')
            p.write({})
            self.finish(p)
            return
        p.ops += not p.blocked
        p.write({})
        d = p.read()
        if d is None:
            p.pending = None
            return
        for e in d.get('late', []):
            self.record(p.num, e['op'], **{k: v for k, v in e.items() if k != 'op'})
        p.retry = False
        if d['done'] == 'blocked':
            if not p.blocked:
                self.record(p.num, m['op'], res='blocked', **{k: v for k, v in m.items() if k != 'op'})
            p.blocked = True
            return
        p.blocked = False
        self.record(p.num, m['op'], res=d['done'], **{k: v for k, v in m.items() if k != 'op'})
        if m['op'] in ('flock', 'close', 'rmtree', 'unlink'):
            for q in self.procs:
                q.retry = True
        p.pending = p.read()

    def run(self, choose, kill_at=None):
        """*choose(runnable, sim)* picks the next process; kill_at = {proc number: operation}."""
        kill_at = kill_at or {}
        while any(p.alive for p in self.procs):
            ready = self.runnable()
            self.let_orphans_write()
            if self.steps in self.hooks:
                self.hooks.pop(self.steps)()
            if not ready or self.steps > self.limit:
                self.deadlock = True
                break
            p = choose(ready, self)
            if isinstance(p, tuple):
                self.kill(p[1])
                continue
            if p.num in kill_at and p.ops >= kill_at[p.num] and p.pending and p.pending['op'] != 'exit':
                self.kill(p)
                continue
            self.step(p)
        self.let_orphans_write(True)
        for p in self.procs:
            if p.alive:
                os.kill(p.pid, signal.SIGKILL)
                self.finish(p)
                p.result = {'stuck': p.pending and p.pending.get('op')}
        return [p.result for p in self.procs]


class Endless(BaseException):
    """A job does not come to an end."""


def endless(*args):
    raise Endless('no end')


def parallel(jobs, worker, procs=8, limit=200):
    """worker(job) for every job, in forked processes; results (for JSON) in order.

    A job may take *limit* seconds; after one which took longer, others get less."""
    chunks = [jobs[i::procs] for i in range(procs)]
    pipes = []
    for n, chunk in enumerate(chunks):
        if not chunk:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGALRM, endless)
            try:
                with io.open(w, 'w') as f:
                    for j in chunk:
                        try:
                            signal.setitimer(signal.ITIMER_REAL, limit)
                            f.write(json.dumps({'r': worker(j)}) + '\n')
                        except BaseException as e:
                            signal.setitimer(signal.ITIMER_REAL, 0)
                            if isinstance(e, Endless):
                                limit = min(limit, 20)
                            f.write(json.dumps({'x': traceback.format_exc()}) + '\n')
                        f.flush()
                    signal.setitimer(signal.ITIMER_REAL, 0)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((n, pid, io.open(r)))
    out = [None] * len(jobs)
    import threading

    def drain(n, f):
        for k, line in enumerate(f):
            out[n + k * procs] = json.loads(line)
        f.close()
    ts = [threading.Thread(target=drain, args=(n, f)) for n, _, f in pipes]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for _, pid, _ in pipes:
        os.waitpid(pid, 0)
    return out
