"""Property-based testing core: recorded choice sequences, parallel search,
integrated shrinking, replay files, evidence.  Standard library only.

A check is a function  prop(g, ctx)  that draws everything random from g
(a Gen: a recorded sequence of bounded integers), executes the real program in
ctx.dir (a private scratch directory) and raises Violation when the oracle
disagrees.  Because every random decision is a number in one list, a failure is
shrunk by editing that list and re-running the same function."""
import hashlib, json, multiprocessing, os, random, shutil, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The program broke the property on this case."""
    def __init__(self, kind, msg=''):
        super().__init__(kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Gen:
    """Random source over a recorded choice sequence.  0 is always the simplest
    choice.  Replaying a list past its end yields 0."""
    def __init__(self, rng=None, replay=None, limit=200000):
        self.rng = rng
        self.replay = replay
        self.rec = []
        self.limit = limit

    def draw(self, n):
        """uniform integer in [0, n)"""
        if n <= 1:
            return 0
        i = len(self.rec)
        if i >= self.limit:
            raise Discard('too many choices')
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
            if v < 0:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def small(self, lo, hi, p=0.6):
        """integer in [lo, hi], geometrically biased to lo"""
        v = lo
        while v < hi and self.bool(p):
            v += 1
        return v

    def bool(self, p=0.5):
        # recorded as a number in [0,1000); True for the largest values, so
        # that 0 shrinks to False
        return self.draw(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(value, integer weight)...], simplest first"""
        tot = sum(w for _, w in pairs)
        r = self.draw(tot)
        for v, w in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][0]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def text(self, alphabet, lo, hi):
        n = self.int(lo, hi)
        return ''.join(self.choice(alphabet) for _ in range(n))


class Ctx:
    """What a property function sees besides its generator."""
    def __init__(self, cdir, env):
        self.dir = cdir
        self.env = env              # shared, prepared once in the parent
        self.keys = []
        self.trivial = True
        self.sample = None
        self.stats = {}

    def reset(self):
        self.keys = []
        self.trivial = True
        self.sample = None
        self.stats = {}
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def key(self, *parts):
        self.keys.append(repr(parts))

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def show(self, s):
        """material for the evidence samples and the replay file"""
        self.sample = s

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        if isinstance(data, str):
            data = data.encode('latin-1')
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def read(self, name):
        with open(os.path.join(self.dir, name), 'rb') as f:
            return f.read().decode('latin-1')

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))


class Check:
    """One property's check.  Subclass or instantiate with a function."""
    def __init__(self, pid, prop, quick, thorough, rule, builds=('plain',),
                 assumptions=(), quick_cap=240, thorough_cap=3000, known=None,
                 min_seconds=None, prepare=None):
        self.pid = pid
        self.prop = prop
        self.quick = quick                  # number of cases
        self.thorough = thorough
        self.rule = rule
        self.builds = builds
        self.assumptions = list(assumptions)
        self.quick_cap = quick_cap          # seconds
        self.thorough_cap = thorough_cap
        self.known = known or {}            # finding id -> predicate(Violation, ctx) for recorded findings
        self.prepare = prepare


def load_known():
    """known_findings.jsonl: {"property":..., "id":..., "status": "open"|"fixed", "what":...}"""
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if ln and not ln.startswith('#'):
                    out.append(json.loads(ln))
    return out


def case_seed(seed, pid, idx):
    return int.from_bytes(hashlib.sha256(f'{seed}/{pid}/{idx}'.encode()).digest()[:8], 'big')


def run_once(check, ctx, gen):
    """-> None or Violation"""
    ctx.reset()
    try:
        check.prop(gen, ctx)
    except Violation as v:
        return v
    except Discard:
        ctx.trivial = True
        ctx.count('discarded')
    except RecursionError:
        ctx.trivial = True
        ctx.count('discarded')
    except (OSError, MemoryError):
        raise
    except Exception:
        # output that the oracle can't take apart is not what was specified
        return Violation('unreadable', 'the output could not be read by the oracle: ' + traceback.format_exc()[-1500:])
    return None


def _worker(check, env, wid, nworkers, total, seed, deadline, base, q, stop, known_ids):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        cdir = os.path.join(base, f'w{wid}')
        os.makedirs(cdir, exist_ok=True)
        os.chdir(cdir)
        ctx = Ctx(cdir, env)
        sys.setrecursionlimit(5000)
        keys = set()
        n = 0
        stats = {}
        samples = []
        knownhits = {}
        idx = wid
        while idx < total and time.time() < deadline and not stop.is_set():
            g = Gen(rng=random.Random(case_seed(seed, check.pid, idx)))
            v = run_once(check, ctx, g)
            n += 1
            for k, c in ctx.stats.items():
                stats[k] = stats.get(k, 0) + c
            if v is not None:
                hit = None
                for kid in known_ids:
                    if check.known[kid](v, ctx):
                        hit = kid
                        break
                if hit is not None:
                    knownhits[hit] = knownhits.get(hit, 0) + 1
                else:
                    q.put(('fail', wid, idx, list(g.rec), v.kind, v.msg))
                    stop.set()
                    break
            elif not ctx.trivial:
                h = hashlib.sha1(repr(ctx.keys if ctx.keys else g.rec).encode()).digest()[:10]
                if h not in keys:
                    keys.add(h)
                    if ctx.sample is not None and len(samples) < 2 and (n % 7 == 3 or n > 50):
                        samples.append(ctx.sample)
            idx += nworkers
        q.put(('done', wid, n, keys, stats, samples, knownhits))
    except BaseException as e:
        q.put(('error', wid, idx if 'idx' in locals() else -1, traceback.format_exc()))
        stop.set()


def shrink(check, ctx, rec, kind, budget=float(os.environ.get("VERIF_SHRINK", "60"))):
    """Shrink the choice list, keeping a violation of the same kind."""
    end = time.time() + budget
    best = list(rec)

    def bad(cand):
        g = Gen(replay=cand)
        v = run_once(check, ctx, g)
        if v is not None and v.kind == kind:
            return g.rec
        return None

    def key(r):
        return (len(r), sum(min(x, 1000) for x in r))

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                for cand in (best[:i] + best[i + size:], best[:i] + [0] * min(size, len(best) - i) + best[i + size:]):
                    if cand == best:
                        continue
                    r = bad(cand)
                    if r is not None and key(r) < key(best):
                        best = r
                        improved = True
                        break
                else:
                    i += size
                    continue
            size //= 2
        for i in range(len(best)):
            if time.time() > end or i >= len(best):
                break
            if best[i] > 0:
                lo, hi = 0, best[i]
                while lo < hi and time.time() < end:
                    mid = (lo + hi) // 2
                    cand = best[:i] + [mid] + best[i + 1:]
                    r = bad(cand)
                    if r is not None and key(r) < key(best):
                        best = r
                        improved = True
                        if i >= len(best):
                            break
                        hi = min(mid, best[i])
                    else:
                        lo = mid + 1
    return best


def clip(s, n=6000):
    if isinstance(s, (dict, list)):
        if len(json.dumps(s)) <= n:
            return s
        s = json.dumps(s)
    s = str(s)
    return s if len(s) <= n else s[:n] + ' ...'


def snapshot(ctx):
    out = {}
    for root, _, files in os.walk(ctx.dir):
        for n in sorted(files):
            p = os.path.join(root, n)
            try:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, ctx.dir)] = f.read(20000).decode('latin-1')
            except OSError:
                pass
    return out


def main(check, argv):
    from . import build
    pid = check.pid
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay_file = None
    cases = None
    workers = os.cpu_count() or 4
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == '--thorough':
            tier = 'thorough'
        elif a == '--quick':
            tier = 'quick'
        elif a == '--replay':
            i += 1
            replay_file = os.path.abspath(argv[i])
        elif a == '--cases':
            i += 1
            cases = int(argv[i])
        elif a == '--workers':
            i += 1
            workers = int(argv[i])
        elif a == '--idx':       # run one case index, verbosely
            i += 1
            replay_file = ('idx', int(argv[i]))
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    base = f'/tmp/vp_{pid}_{os.getpid()}'
    os.makedirs(base, mode=0o700)
    rc = 3
    try:
        env = build.build(base, check.builds)
        if check.prepare:
            check.prepare(env, base)
        if replay_file is not None:
            rc = do_replay(check, env, base, replay_file, seed)
        else:
            rc = do_search(check, env, base, seed, tier, cases, workers, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rc


def do_replay(check, env, base, replay_file, seed):
    cdir = os.path.join(base, 'replay')
    os.makedirs(cdir)
    os.chdir(cdir)
    ctx = Ctx(cdir, env)
    if isinstance(replay_file, tuple):
        g = Gen(rng=random.Random(case_seed(seed, check.pid, replay_file[1])))
        path = f'idx:{replay_file[1]}'
    else:
        with open(replay_file) as f:
            d = json.load(f)
        g = Gen(replay=d['choices'])
        path = replay_file
    v = run_once(check, ctx, g)
    if ctx.sample is not None:
        print(ctx.sample if isinstance(ctx.sample, str) else json.dumps(ctx.sample, indent=1))
    print('stats', ctx.stats, 'trivial', ctx.trivial)
    if v is None:
        print('replay: property held on this case')
        return 0
    print(str(v))
    print(f'VIOLATION property={check.pid} replay={path}')
    return 1


def do_search(check, env, base, seed, tier, cases, workers, t0):
    pid = check.pid
    total = cases or (check.quick if tier == 'quick' else check.thorough)
    cap = check.quick_cap if tier == 'quick' else check.thorough_cap
    deadline = time.time() + cap
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    stop = mp.Event()
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'open']
    known_ids = [k['id'] for k in known if k['id'] in check.known]
    procs = []
    for w in range(workers):
        p = mp.Process(target=_worker, args=(check, env, w, workers, total, seed, deadline, base, q, stop, known_ids))
        p.start()
        procs.append(p)
    done = 0
    n = 0
    keys = set()
    stats = {}
    samples = []
    fails = []
    errors = []
    knownhits = {}
    alive = set(range(workers))
    while alive:
        try:
            m = q.get(timeout=5)
        except Exception:
            for w in list(alive):
                if not procs[w].is_alive() and procs[w].exitcode not in (0, None):
                    errors.append(f'worker {w} died with {procs[w].exitcode}')
                    alive.discard(w)
            if time.time() > deadline + 200:
                for w in list(alive):
                    procs[w].kill()
                errors.append('workers did not finish in time')
                break
            continue
        if m[0] == 'fail':
            fails.append(m[2:])
        elif m[0] == 'done':
            alive.discard(m[1])
            n += m[2]
            keys |= m[3]
            for k, c in m[4].items():
                stats[k] = stats.get(k, 0) + c
            samples += m[5]
            for k, c in m[6].items():
                knownhits[k] = knownhits.get(k, 0) + c
        elif m[0] == 'error':
            alive.discard(m[1])
            errors.append(m[3])
    for p in procs:
        p.join(timeout=10)

    violations = 0
    rc = 0
    out_lines = []
    if fails:
        fails.sort()
        idx, rec, kind, msg = fails[0]
        cdir = os.path.join(base, 'shrink')
        os.makedirs(cdir, exist_ok=True)
        os.chdir(cdir)
        ctx = Ctx(cdir, env)
        repro = 0
        for _ in range(3):
            v = run_once(check, ctx, Gen(replay=rec))
            if v is not None:
                repro += 1
        if repro == 0:
            # one more chance with the original random source
            v = run_once(check, ctx, Gen(rng=random.Random(case_seed(seed, pid, idx))))
            if v is not None:
                repro = 1
        best = rec
        if repro == 3:
            best = shrink(check, ctx, rec, kind, float(os.environ.get("VERIF_SHRINK", "45")) if tier == 'quick' else 300.0)
        v = run_once(check, ctx, Gen(replay=best))
        if v is None:
            v = run_once(check, ctx, Gen(replay=rec))
            best = rec
        if v is not None:
            kind, msg = v.kind, v.msg
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{tier}-{seed}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'case': idx, 'kind': kind, 'message': msg,
                       'reproduced': f'{repro}/3', 'choices': best, 'shown': ctx.sample,
                       'files': snapshot(ctx),
                       'how': f'cd /verif && python3 run_check.py {pid} --replay {path}'}, f, indent=1)
        if repro > 0:
            violations = 1
            rc = 1
            out_lines.append(f'violation kind={kind}\n{msg[:5000]}')
            if ctx.sample is not None:
                out_lines.append('case: ' + (ctx.sample if isinstance(ctx.sample, str) else json.dumps(ctx.sample, indent=1))[:6000])
            out_lines.append(f'VIOLATION property={pid} replay={path}')
        else:
            out_lines.append(f'note: case {idx} failed once ({kind}) and did not reproduce; not reported')
            rc = 0
    if errors and rc == 0:
        for e in errors[:3]:
            sys.stderr.write('check error: ' + e + '\n')
        rc = 3

    extra = {}
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (id {k['id']}; hit {knownhits.get(k['id'], 0)} times in this run)")
    for k in stats:
        extra['n_' + k] = stats[k]
    if not samples:
        samples = ['(no sample recorded)']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(keys), 'rule': check.rule,
            'samples': [clip(s) for s in samples[:6]],
            'planned_cases': total, **extra,
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} {tier} seed={seed}: {n} cases, {len(keys)} distinct non-trivial, {time.time()-t0:.1f}s')
    print('  ' + ' '.join(f'{k}={v}' for k, v in sorted(stats.items())))
    for ln in out_lines:
        print(ln)
    return rc
