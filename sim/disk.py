"""A disk and a process that can fail at any operation. Used inside a forked
child: a crash is os._exit at the chosen operation, so nothing that was still in
user-space buffers survives and no clean-up code runs; a power cut additionally
loses file contents that were never synced."""
import builtins, io, json, os, random, sys

CRASH = 91


class Disk:
    """fault: dict(kind, at, every) counted over the operations of the child."""

    def __init__(self, fault, rng, emit, root):
        self.fault, self.rng, self.emit, self.root = fault, rng, emit, root
        self.n = 0
        self.synced = {}          # inode -> bytes that would survive a power cut
        self.full = False
        self.real_open, self.real_fsync, self.real_replace = builtins.open, os.fsync, os.replace
        self.fired = None
        self.names = []

    def crash(self, name, power=False):
        self.emit(dict(e='crash', at=name, n=self.n, power=power))
        if power:
            for d, _, fs in os.walk(self.root):
                for f in fs:
                    p = os.path.join(d, f)
                    st = os.stat(p)
                    if st.st_ino in self.synced and st.st_size > self.synced[st.st_ino]:
                        keep = self.synced[st.st_ino]
                        os.truncate(p, self.rng.randint(keep, st.st_size) if self.rng.random() < 0.5 else keep)
        os._exit(CRASH)

    def op(self, name, raw=None, data=None):
        """One operation on the outside world. Returns normally, raises, or ends the process."""
        i = self.n
        self.n += 1
        self.names.append(name)
        f = self.fault
        k = f.get('kind')
        if self.full and name in ('write', 'open', 'mkdir'):
            self.enospc(name, raw, data)
        if f.get('at') != i or k is None:
            return None
        self.fired = name
        if k in ('crash', 'power'):
            if name == 'write' and data is not None and self.rng.random() < 0.6:
                os.write(raw.fileno(), bytes(data)[:self.rng.randrange(len(data) + 1)])
            self.crash(name, k == 'power')
        self.emit(dict(e='fault', kind=k, at=name, n=i))
        if k == 'enospc':
            self.full = f.get('stays', True)
            self.enospc(name, raw, data)
        if k == 'eio':
            raise OSError(5, 'Input/output error (simulated)')
        if k == 'interrupt':
            raise KeyboardInterrupt()
        if k == 'memory':
            raise MemoryError('simulated')
        if k == 'short' and name == 'write':
            return max(1, len(data) // 2)
        return None

    def enospc(self, name, raw, data):
        if name in ('replace', 'close', 'train', 'stat'):
            return
        if name == 'write' and data is not None and len(data) > 1:
            os.write(raw.fileno(), bytes(data)[:self.rng.randrange(len(data))])
        raise OSError(28, 'No space left on device (simulated)')

    def install(self):
        disk = self

        class Raw(io.FileIO):
            def write(self, b):
                m = memoryview(b).cast('B')
                short = disk.op('write', self, m)
                r = super().write(m[:short] if short else m)
                return r

            def truncate(self, size=None):
                disk.op('truncate')
                return super().truncate(size)

            def close(self):
                if not self.closed:
                    try:
                        disk.op('close')
                    finally:
                        super().close()

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not any(c in mode for c in 'wxa+') or isinstance(file, int):
                return disk.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not os.path.abspath(os.fspath(file)).startswith(disk.root):
                raise PermissionError('outside the scratch folder: %r' % (file,))
            disk.op('open')
            raw = Raw(file, ''.join(c for c in mode if c in 'rwxa+'), closefd=closefd, opener=opener)
            ino = os.fstat(raw.fileno()).st_ino
            if 'w' in mode or 'x' in mode:
                disk.synced[ino] = 0
            else:
                disk.synced.setdefault(ino, os.fstat(raw.fileno()).st_size)
            if buffering == 0:
                return raw
            buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline)

        builtins.open = sim_open
        io.open = sim_open

        def fsync(fd):
            disk.op('fsync')
            fd = fd if isinstance(fd, int) else fd.fileno()
            disk.real_fsync(fd)
            st = os.fstat(fd)
            disk.synced[st.st_ino] = st.st_size
        os.fsync = fsync
        os.fdatasync = fsync

        def guarded(name, orig, label):
            def f(*a, **k):
                for p in a[:2]:
                    if isinstance(p, (str, bytes, os.PathLike)) and not os.path.abspath(os.fspath(p)).startswith(disk.root):
                        raise PermissionError('outside the scratch folder: %r' % (p,))
                disk.op(label)
                return orig(*a, **k)
            return f
        for n in ('replace', 'rename', 'link', 'symlink'):
            setattr(os, n, guarded(n, getattr(os, n), 'replace'))
        for n in ('mkdir', 'unlink', 'remove', 'rmdir', 'truncate'):
            setattr(os, n, guarded(n, getattr(os, n), 'mkdir' if n == 'mkdir' else 'unlink'))


class Lines:
    """Fires before the k-th source line executed in the given files."""

    def __init__(self, prefixes, at, act):
        self.prefixes, self.at, self.act = tuple(prefixes), at, act
        self.n = 0
        self.files = []

    def _local(self, frame, event, arg):
        if event == 'line':
            i = self.n
            self.n += 1
            self.files.append(os.path.basename(frame.f_code.co_filename)[:4])
            if i in self.at:
                self.act(i, '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
        return self._local

    def _global(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(self.prefixes):
            return self._local
        return None


def fork(body, root, timeout=60):
    """Runs body(emit) in a forked child. -> (events, status); status: exit code
    or minus the signal."""
    import select, signal, time
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            nul = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            def emit(ev):
                os.write(w, (json.dumps(ev) + '\n').encode())
            os.chdir(root)
            try:
                code = body(emit)
            except BaseException as e:
                import traceback
                emit(dict(e='harness', what=traceback.format_exc()[-1500:]))
        finally:
            os._exit(code or 0)
    os.close(w)
    data = b''
    end = time.time() + timeout
    while True:
        a, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not a:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            raise RuntimeError('the simulated process did not end within %d s' % timeout)
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return [json.loads(l) for l in data.decode().splitlines()], os.waitstatus_to_exitcode(st)
