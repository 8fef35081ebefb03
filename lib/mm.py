"""Driving the metamath executable."""
import os, re, signal, subprocess
from .core import Violation

ENVV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC', 'HOME': '/nonexistent',
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=4000',
        'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98:print_stacktrace=1'}

PROMPT = re.compile(r'(?:^|(?<=\n)|(?<=MM> )|(?<=MM-PA> )|(?<=TOOLS> ))(MM-PA|MM|TOOLS)> ')


class Out:
    def __init__(self, rc, out, err, timeout=False):
        self.rc = rc
        self.out = out
        self.err = err
        self.timeout = timeout


def _limits(fsize, full=False):
    import resource

    def f():
        if full:
            # writing past the limit fails like on a full disk
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(exe, args=(), stdin='', cwd=None, timeout=30, fsize=64 << 20, env=None, full=False):
    e = dict(ENVV)
    if env:
        e.update(env)
    try:
        p = subprocess.run([exe, *args], input=stdin.encode('latin-1'), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=cwd, timeout=timeout, env=e,
                           preexec_fn=_limits(fsize, full))
        return Out(p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1'))
    except subprocess.TimeoutExpired as t:
        return Out(None, (t.stdout or b'').decode('latin-1'), (t.stderr or b'').decode('latin-1'), True)


def health(o, what='session'):
    """A run must end by itself, with status 0, without the program's own
    'internal bug' report and without a sanitizer report."""
    if o.timeout:
        raise Violation('hang', f'{what}: did not finish; output tail: {o.out[-600:]!r}')
    if 'AddressSanitizer' in o.err or 'runtime error:' in o.err:
        raise Violation('sanitizer', f'{what}: {o.err[:3000]}\noutput tail: {o.out[-400:]}')
    m = re.search(r'(?m)^\*\*\* (?:PROGRAM )?BUG|\*\*\*BUG #\d+|PROGRAM BUG #?\d*', o.out)
    if m:
        raise Violation('internal-bug', f'{what}: {o.out[max(0, m.start() - 300):m.end() + 600]}')
    if o.rc != 0:
        raise Violation('exit-status', f'{what}: exit status {o.rc}; stderr {o.err[:800]!r}; output tail {o.out[-600:]!r}')


def split(out):
    """Split a stdin-driven session's output at prompts: list of (prompt, text)."""
    parts = []
    ms = list(PROMPT.finditer(out))
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(out)
        parts.append((m.group(1), out[m.end():end]))
    return parts


def session(exe, cmds, cwd, timeout=30, width=None, env=None, check=True, fsize=64 << 20, full=False):
    """Run the commands (one stdin line each).  Returns (outputs, Out) where
    outputs[i] is the text printed by command i.  The session ends at end of
    input, which acts as EXIT (answered Y)."""
    pre = ['set scroll continuous']
    if width:
        pre.append(f'set width {width}')
    script = '\n'.join(pre + list(cmds)) + '\n'
    o = run(exe, (), script, cwd, timeout, env=env, fsize=fsize, full=full)
    if check:
        health(o, '; '.join(cmds)[:1500])
    parts = split(o.out)
    outs = [t for _, t in parts[len(pre):]]
    if check and len(outs) < len(cmds):
        raise Violation('session-short', f'{len(cmds)} commands gave {len(outs)} outputs: {o.out[-1500:]}')
    return outs, o


ERR_RE = re.compile(r'\?Error(?: on line (\d+) of file "([^"]*)")?(?: at\s+statement\s+(\d+))?(?:,\s*label\s+"([^"]*)")?(?:,\s*type\s+"\$(.)")?:')


def verify_errors(text):
    """labels of statements with ?Error messages in (wide) VERIFY PROOF output"""
    t = re.sub(r'\s+', ' ', text)
    return set(m.group(4) for m in ERR_RE.finditer(t))


def verify_warnings(text):
    t = re.sub(r'\s+', ' ', text)
    return set(m.group(1) for m in re.finditer(r'\?Warning on line \d+ of file "[^"]*" at statement \d+, label "([^"]*)"', t))
