"""An interactive session with the program: send a command, read its answer."""
import os, re, select, subprocess, time
from .core import Violation
from . import mm


class Live:
    """The program is ready for the next line when its output pipe is drained
    and it sleeps (it never sleeps except in a read of standard input)."""

    def __init__(self, exe, cwd, width=None, timeout=30, env=None):
        e = dict(mm.ENVV)
        if env:
            e.update(env)
        self.err = open(os.path.join(cwd, '.stderr'), 'w+b')
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=cwd, env=e,
                                  preexec_fn=mm._limits(64 << 20), bufsize=0)
        self.fd = self.p.stdout.fileno()
        os.set_blocking(self.fd, False)
        self.po = select.poll()
        self.po.register(self.fd, select.POLLIN)
        self.timeout = timeout
        self.log = []
        self.all = ''
        self.dead = False
        self.prompt = ''
        self.stat = f'/proc/{self.p.pid}/stat'
        try:
            self._read()
            for c in ['set scroll continuous'] + ([f'set width {width}'] if width else []):
                self(c)
        except BaseException:
            self.kill()
            raise

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()
        self.dead = True

    def _drain(self, buf):
        got = False
        while True:
            try:
                d = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                return got, False
            if not d:
                return got, True
            buf.append(d)
            got = True

    def _state(self):
        with open(self.stat, 'rb') as f:
            s = f.read()
        return s[s.rindex(b')') + 2:s.rindex(b')') + 3]

    def _read(self):
        buf = []
        end = time.time() + self.timeout
        wait = 0.0
        while True:
            got, eof = self._drain(buf)
            if eof:
                self.dead = True
                break
            if self._state() in (b'S', b'Z'):
                # nothing arrived between draining and sleeping?
                got, eof = self._drain(buf)
                if eof:
                    self.dead = True
                    break
                if not got and self._state() == b'S':
                    g2, eof = self._drain(buf)
                    if not g2 and not eof:
                        break
                continue
            if time.time() > end:
                out = b''.join(buf).decode('latin-1')
                c = self.log[-5:]
                self.kill()
                raise Violation('hang', f'after {c}: no answer in {self.timeout} s; output tail {out[-500:]!r}')
            self.po.poll(1 if wait else 0)
            wait = 1
        out = b''.join(buf).decode('latin-1')
        self.all += out
        if self.dead:
            self._dead(out)
        m = re.search(r'(MM-PA|MM|TOOLS)> $', out)
        self.prompt = m.group(1) if m else out.split('\n')[-1]
        return out[:m.start()] if m else out

    def _dead(self, out):
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode('latin-1')
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()
        self.o = mm.Out(rc, self.all, e)
        mm.health(self.o, '; '.join(self.log)[-1500:])

    def __call__(self, cmd):
        """send one line, return the answer without the next prompt"""
        if self.dead:
            raise Violation('session-ended', f'{self.log[-5:]}: the program has ended: {self.all[-500:]!r}')
        self.log.append(cmd)
        try:
            self.p.stdin.write(cmd.encode('latin-1') + b'\n')
        except BrokenPipeError:
            pass
        out = self._read()
        if re.search(r'\*\*\*BUG|\*\*\* (?:PROGRAM )?BUG', out):
            self.kill()
            raise Violation('internal-bug', f'after {self.log[-8:]}: {out[-1500:]}')
        return out

    def close(self):
        """end of input acts as EXIT"""
        if self.dead:
            return
        self.p.stdin.close()
        buf = []
        end = time.time() + self.timeout
        while True:
            _, eof = self._drain(buf)
            if eof:
                break
            if time.time() > end:
                self.kill()
                raise Violation('hang', f'{self.log[-5:]}: does not end at end of input')
            self.po.poll(50)
        self.all += b''.join(buf).decode('latin-1')
        self.dead = True
        self._dead('')

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.close()
        elif not self.dead:
            self.kill()
