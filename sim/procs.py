"""Simulated child processes: subprocess.Popen is replaced, no command of a list is executed.

The scenario gives a table {command line: output bytes}; faults say what happens to the k-th
execution of a command (nonzero exit, killed half-way, no output, garbage, spawn failure)."""
import io
import random
import signal
import subprocess

_real = subprocess.Popen
_active = None


class Procs(object):
    def __init__(self, ctx, table, faults=()):
        self.ctx, self.table, self.faults = ctx, table, [f for f in faults if f['kind'] == 'cmd']
        self.runs = {}
        self.failed = []

    def __enter__(self):
        global _active
        self.prev, _active = _active, self
        return self

    def __exit__(self, *a):
        global _active
        _active = self.prev

    def start(self, cmd):
        """-> (output, return code)"""
        name = cmd.strip()
        if name not in self.table:
            self.ctx.ev('spawn', name, 'unknown')
            return b'', 127
        i, out = self.table[name]
        k = self.runs.get(i, 0)
        self.runs[i] = k + 1
        self.ctx.ev('spawn', name, k)
        for f in self.faults:
            if f['cmd'] == i and f['run'] <= k < f['run'] + f.get('times', 1):
                how = f['how']
                self.ctx.fault('command-' + how)
                self.failed.append((i, how))
                part = out[:int(len(out) * f.get('part', 0.5))]
                if how == 'spawn':
                    raise OSError(11, 'Resource temporarily unavailable (simulated)')
                if how == 'exit':
                    return part, f.get('rc', 1)
                if how == 'exit-full':
                    return out, f.get('rc', 1)
                if how == 'killed':
                    return part, -signal.SIGKILL
                if how == 'empty':
                    return b'', 0
                if how == 'garbage':
                    r = random.Random(f['seed'])     # a message instead of a waveform
                    return bytes(r.choice(b'sox FAIL formats: no such file\n')
                                 for _ in range(r.randint(1, 400))), 0
                raise AssertionError(how)
        return out, 0


class Popen(object):
    """The part of the Popen interface that programs use with pipes."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, *a, **kw):
        cmd = args if isinstance(args, str) else ' '.join(map(str, args))
        if isinstance(args, (list, tuple)) and len(args) >= 3 and args[1] == '-c':
            cmd = args[2]                      # ['sh', '-c', command]
        if isinstance(args, str) and not shell and len(args.split()) != 1:
            # without a shell the whole string is the name of one program
            raise FileNotFoundError(2, 'No such file or directory', args)
        out, self._rc = _active.start(cmd)
        self.args, self.pid, self.returncode = args, 4242, None
        text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
        raw = io.BytesIO(out)
        self.stdout = (io.TextIOWrapper(raw) if text else raw) if stdout == -1 else None
        self.stderr = (io.StringIO() if text else io.BytesIO()) if stderr == -1 else None
        self.stdin = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def wait(self, timeout=None):
        return self.poll()

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        self.poll()
        return out, err

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass


class Spawn(_real):
    """In place of subprocess.Popen for good (also under names imported from the module): a
    simulated process while a run is on, a real one otherwise."""

    def __new__(cls, *a, **k):
        if _active is not None:
            return Popen(*a, **k)
        return super().__new__(cls)


subprocess.Popen = Spawn
