"""Exhaustive exploration of choice sequences for python code (the counterpart of mc.cpp): every
sequence of answers to choose() is executed once, split over processes by the first choices."""
import argparse, hashlib, json, mmap, os, signal, struct, sys, time, traceback


class Pruned(Exception):
    pass


class Failure(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


def digest(h):
    return int.from_bytes(hashlib.blake2b(repr(h).encode(), digest_size=7).digest(), 'little')


class X:
    """one exploration"""

    def __init__(self):
        self.cur, self.ar, self.pos, self.replaying = [], [], 0, False
        self.steps, self.states, self.nontriv, self.outcomes, self.desc = 0, set(), set(), {}, []
        self.slot = None
        self.tier = 0
        self.splitting = None

    def choose(self, n):
        if n <= 0:
            raise Pruned()
        if self.pos < len(self.cur):
            c = self.cur[self.pos]
            if self.replaying:
                self.ar.append(n)
            elif self.ar[self.pos] != n:
                print('pymc: nondeterministic harness')
                os._exit(3)
        else:
            if self.replaying:
                print('pymc: replay too short')
                os._exit(3)
            self.cur.append(0)
            self.ar.append(n)
            c = 0
        self.pos += 1
        if self.slot is not None:
            struct.pack_into('ii', self.slot, 4 * self.pos - 4 + 8, c, 0)
            struct.pack_into('i', self.slot, 4, self.pos)
        return c

    def pick(self, v):
        return v[self.choose(len(v))]

    def split(self):
        if self.splitting is not None:
            pre = tuple(self.cur[:self.pos])
            if not self.splitting(pre):
                raise Skipped()

    def step(self, n=1):
        self.steps += n

    def state(self, h):
        self.states.add(digest(h))

    def nontrivial(self, h):
        self.nontriv.add(digest(h))

    def outcome(self, o):
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def fail(self, key, msg):
        raise Failure(key, msg)

    def describe(self, s):
        self.desc.append(s)

    def advance(self):
        del self.cur[self.pos:], self.ar[self.pos:]
        while self.cur:
            if self.cur[-1] + 1 < self.ar[-1]:
                self.cur[-1] += 1
                return True
            self.cur.pop()
            self.ar.pop()
        return False


class Skipped(Exception):
    pass


def once(x, fn):
    x.pos = 0
    x.desc = []
    try:
        fn(x)
        return 'ok', None
    except Pruned:
        return 'pruned', None
    except Skipped:
        return 'skip', None
    except Failure as f:
        return 'bad', (f.key, f.msg)
    except Exception as e:
        return 'bad', ('exception', ''.join(traceback.format_exception_only(type(e), e)).strip() + ' ' + repr(traceback.extract_tb(e.__traceback__)[-1]))


def main(scenarios, setup):
    ap = argparse.ArgumentParser()
    for a in ('pkg', 'out', 'known', 'scenario', 'replay'):
        ap.add_argument('--' + a)
    ap.add_argument('--tier', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    a = ap.parse_args()
    sys.path.insert(0, a.pkg)
    known = set(l.strip() for l in open(a.known)) if a.known and os.path.exists(a.known) else set()
    by = dict((f.__name__, f) for f in scenarios)
    if a.replay is not None:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            setup()
            x = X()
            x.tier, x.replaying, x.cur = a.tier, True, [int(c) for c in a.replay.split(',') if c]
            signal.alarm(60)
            r, f = once(x, by[a.scenario])
            print('\n'.join(x.desc))
            if f:
                print('VIOLATED [%s] %s' % f)
            sys.stdout.flush()
            os._exit(1 if f else 0)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            print('VIOLATED [crash] killed by signal %d' % os.WTERMSIG(st))
            return 1
        return os.WEXITSTATUS(st)
    viol = os.path.join(a.out, 'violations.jsonl')
    if os.path.exists(viol):
        os.remove(viol)
    res = []
    for fn in scenarios:
        if a.scenario and a.scenario != fn.__name__:
            continue
        t0 = time.time()
        shm = mmap.mmap(-1, 8192 * a.workers)
        claims = mmap.mmap(-1, 1 << 22)
        lockr, lockw = os.pipe()
        os.write(lockw, b'x')
        pids = []
        for w in range(a.workers):
            pid = os.fork()
            if pid == 0:
                worker(fn, w, a, shm, claims, lockr, lockw, known, viol)
                os._exit(0)
            pids.append(pid)
        bad = []
        left = dict((p, w) for w, p in enumerate(pids))
        last = dict((w, (0, time.time())) for w in range(a.workers))
        while left:
            for p in list(left):
                w = left[p]
                q, st = os.waitpid(p, os.WNOHANG)
                if q == p:
                    del left[p]
                    if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
                        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
                            print('pymc: internal error')
                            return 3
                        bad.append((w, 'crash'))
                    continue
                n = struct.unpack_from('i', shm, 8192 * w)[0]
                if n != last[w][0]:
                    last[w] = (n, time.time())
                elif time.time() - last[w][1] > 20:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del left[p]
                    bad.append((w, 'hang'))
            time.sleep(0.01)
        for w, kind in bad[:2]:
            n = struct.unpack_from('i', shm, 8192 * w + 4)[0]
            seq = list(struct.unpack_from('%di' % n, shm, 8192 * w + 8))
            with open(viol, 'a') as f:
                f.write(json.dumps(dict(scenario=fn.__name__, key=kind, msg='the process died or stopped in this execution', choices=','.join(map(str, seq)))) + '\n')
        tot = dict(name=fn.__name__, executions=0, transitions=0, pruned=0, digest='', complete=not bad, states=set(), nontrivial=set(), outcomes={}, known={}, samples=[], internal=0)
        for w in range(a.workers):
            p = os.path.join(a.out, '%s.%d' % (fn.__name__, w))
            if not os.path.exists(p):
                continue
            d = json.load(open(p))
            os.remove(p)
            for k in ('executions', 'transitions', 'pruned'):
                tot[k] += d[k]
            tot['complete'] &= d['complete']
            for k in ('states', 'nontrivial'):
                tot[k] |= set(d[k])
            for k in ('outcomes', 'known'):
                for o, n in d[k].items():
                    tot[k][o] = tot[k].get(o, 0) + n
            tot['samples'] += d['samples']
        tot['states'], tot['nontrivial'] = len(tot['states']), len(tot['nontrivial'])
        tot['samples'] = tot['samples'][:3]
        tot['wall_s'] = round(time.time() - t0, 2)
        res.append(tot)
    json.dump(dict(scenarios=res), open(os.path.join(a.out, 'result.json'), 'w'))
    return 1 if os.path.exists(viol) and os.path.getsize(viol) else 0


def worker(fn, w, a, shm, claims, lockr, lockw, known, viol):
    global setup_fn
    setup_fn()
    x = X()
    x.tier = a.tier
    view = memoryview(shm)[8192 * w:8192 * (w + 1)]
    x.slot = view
    idx = [0]
    mine = [None]

    def claim(pre):
        if pre == mine[0]:
            return True
        i = idx[0]
        idx[0] += 1
        os.read(lockr, 1)
        free = claims[i] == 0
        if free:
            claims[i] = 1
        os.write(lockw, b'x')
        if free:
            mine[0] = pre
        return free
    x.splitting = claim
    d = dict(executions=0, transitions=0, pruned=0, complete=True, known={}, samples=[])
    n = nv = 0
    while True:
        r, f = once(x, fn)
        n += 1
        struct.pack_into('i', view, 0, n)
        if r in ('ok', 'bad'):
            d['executions'] += 1
        if r == 'pruned':
            d['pruned'] += 1
        if r == 'ok' and x.desc and len(d['samples']) < 1 and d['executions'] > 40:
            d['samples'].append('choices %s\n%s' % (','.join(map(str, x.cur[:x.pos])), '\n'.join(x.desc)[:900]))
        if r == 'bad':
            k = fn.__name__ + ':' + f[0]
            if k in known:
                d['known'][k] = d['known'].get(k, 0) + 1
            else:
                nv += 1
                with open(viol, 'a') as g:
                    g.write(json.dumps(dict(scenario=fn.__name__, key=f[0], msg=f[1], choices=','.join(map(str, x.cur[:x.pos])))) + '\n')
                if nv >= 4:
                    d['complete'] = False
                    break
        if not x.advance():
            break
    d.update(transitions=x.steps, states=list(x.states), nontrivial=list(x.nontriv), outcomes=x.outcomes)
    json.dump(d, open(os.path.join(a.out, '%s.%d' % (fn.__name__, w)), 'w'))


def run(scenarios, setup):
    global setup_fn
    setup_fn = setup
    sys.exit(main(scenarios, setup))
