"""C21: the python class against the compiled library called directly with plain arrays."""
import ctypes, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc
import numpy as np

CI = SO = None


def setup():
    global CI, SO
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    import sigrid
    from sigrid.conserveInterp2D import ConserveInterp2D
    CI, SO = ConserveInterp2D, ctypes.CDLL(sigrid.__path__[0] + '/libsigrid.so')


# ---- the library called directly
def native(src, per, dst, data):
    key = (src, per, dst, data)
    if key in native.cache:
        return native.cache[key]
    D = ctypes.POINTER(ctypes.c_double)

    def grid(k, fn, extra):
        x, y = [np.array(v, np.float64, order='C') for v in GRIDS[k]]
        dims = (ctypes.c_int * 2)(*x.shape)
        co = (D * 2)(x.ctypes.data_as(D), y.ctypes.data_as(D))
        fn(ctypes.byref(h), dims, *(extra + [co]))
        return x.shape
    h = ctypes.c_void_p(0)
    SO.SgConserveInterp2D_new(ctypes.byref(h))
    grid(src, SO.SgConserveInterp2D_setSrcGrid, [(ctypes.c_int * 2)(*per)])
    n = grid(dst, SO.SgConserveInterp2D_setDstGrid, [])
    SO.SgConserveInterp2D_computeWeights(ctypes.byref(h))
    d = np.array(values(src, data), np.float64, order='C')
    out = np.zeros((n[0] - 1, n[1] - 1))
    SO.SgConserveInterp2D_apply(ctypes.byref(h), d.ctypes.data_as(D), out.ctypes.data_as(D))
    SO.SgConserveInterp2D_del(ctypes.byref(h))
    native.cache[key] = out
    return out


native.cache = {}


def mesh(a, b, shear=0):
    x, y = np.meshgrid(np.array(a, float), np.array(b, float), indexing='ij')
    return x + shear * y, y


# integer valued (so that they can be stored in any type), different sizes, one beyond the others
GRIDS = [mesh([0, 2, 4, 8], [0, 3, 6]), mesh([1, 2, 7], [1, 2, 4, 5, 9]), mesh([0, 5], [0, 4]), mesh([20, 21, 23], [20, 25]), mesh([-4, 0, 4, 8, 12], [-2, 2, 5, 11], 1)]

# every shape of 1..6 x 1..6 cells, the grids all overlap
SHAPE = {}
for _a in range(1, 7):
    for _b in range(1, 7):
        SHAPE[_a, _b] = len(GRIDS)
        GRIDS.append(mesh([_i * (_i + 2) for _i in range(_a + 1)], [3 * _j for _j in range(_b + 1)]))


def values(k, m):
    n0, n1 = GRIDS[k][0].shape
    i, j = np.meshgrid(np.arange(n0 - 1), np.arange(n1 - 1), indexing='ij')
    return [i * 7 + j * 3 + 1, -(i + 2) * (j - 1), np.ones((n0 - 1, n1 - 1), int)][m]


# ---- layouts
def layout(v, k):
    v = np.array(v)
    if k == 0:
        return np.array(v, np.float64, order='C')
    if k == 1:
        return np.array(v, np.float64, order='F')
    if k == 2:
        return np.array(v, np.float32)
    if k == 3:
        return np.array(v, np.int64)
    if k == 4:  # every other element of a larger array
        b = np.full((v.shape[0] * 2, v.shape[1] * 3), -999.0)
        b[::2, ::3] = v
        return b[::2, ::3]
    if k == 5:  # negative strides
        return np.array(np.array(v, np.float64)[::-1, ::-1], order='C')[::-1, ::-1]
    if k == 6:  # other byte order
        return np.array(v, '>f8')
    if k == 7:
        r = np.array(v, np.float64)
        r.flags.writeable = False
        return r
    if k == 8:
        return np.array(v, np.int32, order='F')
    if k == 9:  # inner part of a larger array
        b = np.full((v.shape[0] + 2, v.shape[1] + 3), 777.0)
        b[1:-1, 2:-1] = v
        return b[1:-1, 2:-1]
    if k == 10:  # extended precision
        return np.array(v, np.longdouble)
    return np.array(v, np.int16)


NL = 12


def scribble(a):
    """the caller goes on using his array"""
    if a.flags.writeable:
        a += 1000


def close(a, b):
    return a.shape == b.shape and a.dtype == np.float64 and bool(np.all(np.abs(a - b) <= 1e-10 * (1 + np.abs(b))))


class Obj:
    """an object under test and the model of its state"""

    def __init__(self, x):
        self.x, self.o, self.src, self.dst, self.ready, self.kept, self.t = x, CI(), None, None, False, [], ''
        self.results = 0
        x.step()

    def call(self, f, *args):
        self.x.step()
        befores = [a.copy() if isinstance(a, np.ndarray) else None for a in args]
        r = f(*args)
        for a, b in zip(args, befores):
            if b is not None and not np.array_equal(a, b):
                self.x.fail('input', '%s: an input array is changed' % self.t)
        return r

    def setSrc(self, k, per=(0, 0), lx=0, ly=0, scrib=True):
        self.t += 'src%d ' % k
        a, b = layout(GRIDS[k][0], lx), layout(GRIDS[k][1], ly)
        self.call(self.o.setSrcGrid, per, a, b)
        scrib and (scribble(a), scribble(b))
        self.src, self.per, self.ready = k, tuple(int(p) for p in per), False

    def setDst(self, k, lx=0, ly=0, scrib=True):
        self.t += 'dst%d ' % k
        a, b = layout(GRIDS[k][0], lx), layout(GRIDS[k][1], ly)
        self.call(self.o.setDstGrid, a, b)
        scrib and (scribble(a), scribble(b))
        self.dst, self.ready = k, False

    def refuses(self, what, f, *args):
        try:
            self.call(f, *args)
        except Exception as e:
            if isinstance(e, pymc.Failure):
                raise
            self.x.outcome('refused')
            return
        self.x.fail('order', '%s: %s is not refused' % (self.t, what))

    def compute(self):
        self.t += 'compute '
        if self.src is None or self.dst is None:
            return self.refuses('computeWeights', self.o.computeWeights)
        self.call(self.o.computeWeights)
        self.ready = True

    def apply(self, m=0, l=0):
        self.t += 'apply%d ' % m
        d = layout(values(self.src, m) if self.src is not None else np.ones((3, 3)), l)
        if not self.ready:
            return self.refuses('apply', self.o.apply, d)
        r = self.call(self.o.apply, d)
        want = native(self.src, self.per, self.dst, m)
        if not isinstance(r, np.ndarray) or not close(r, want):
            self.x.fail('result', '%s: result\n%r\nthe library gives\n%r' % (self.t, r, want))
        self.kept.append((r, r.copy()))
        self.results += 1
        self.x.state(('r', r.round(9).tobytes()))
        self.x.outcome('partly covered' if (r == 0).any() else 'covered')

    def finish(self):
        for r, c in self.kept:
            if not np.array_equal(r, c):
                self.x.fail('earlier', '%s: a result returned earlier is changed by a later call' % self.t)
            r[...] = -77  # the caller may change what he got
        self.kept = []


# ---- scenarios
def histories(x):
    n = {0: 6, 1: 7}[x.tier]
    o = Obj(x)
    for k in range(n):
        op = x.choose(8)
        if k == 1:
            x.split()
        if op < 3:
            o.setSrc([0, 1, 4][op])
        elif op < 6:
            o.setDst([1, 2, 3][op - 3])
        elif op == 6:
            o.compute()
        else:
            o.apply(k % 3)
            if k < n - 1 and k % 2:
                o.finish()
    o.finish()
    x.nontrivial(o.t) if o.results else None
    x.describe('%s%d results' % (o.t, o.results))


def layouts(x):
    ls = x.choose(NL)
    ld = x.choose(NL)
    x.split()
    lv = x.choose(NL)
    s, d = x.pick([(0, 1), (4, 0), (1, 2)] if x.tier else [(0, 1), (4, 0)])
    same = x.choose(2)
    o = Obj(x)
    ly = ls if same else (ls + 1) % NL
    o.t = 'layouts %d/%d %d %d ' % (ls, ly, ld, lv)
    first = x.choose(2)
    if first:
        o.setDst(d, ld, ld if same else 0)
    o.setSrc(s, (0, 0), ls, ly)
    if not first:
        o.setDst(d, ld, ld if same else (ld + 5) % NL)
    o.compute()
    for m in range(3):
        o.apply(m, lv)
    o.finish()
    x.nontrivial((ls, ld, lv, s, d, same, first))
    x.describe(o.t)


def allLayouts(x):
    """every combination of layouts of the five arrays"""
    K = NL if x.tier else 6
    a, b = x.choose(K), x.choose(K)
    x.split()
    c, d, e = x.choose(K), x.choose(K), x.choose(K)
    o = Obj(x)
    o.t = 'layouts %d %d %d %d %d ' % (a, b, c, d, e)
    o.setSrc(0, (0, 0), a, b, False)
    o.setDst(1, c, d, False)
    o.compute()
    o.apply(0, e)
    o.finish()
    x.nontrivial((a, b, c, d, e))
    x.describe(o.t)


def periodicity(x):
    per = x.pick([(False, False), [0, 1], (True, False), np.array([True, True]), np.array([0, 1]), [1, 0]])
    x.split()
    s, d = x.choose(5), x.choose(5)
    again = x.choose(2)
    o = Obj(x)
    if again:
        o.setSrc(s, (1, 1))
        o.setDst(d)
        o.compute()
    o.setSrc(s, per)
    o.setDst(d)
    o.compute()
    o.apply(0)
    o.apply(1)
    o.finish()
    x.nontrivial((tuple(int(p) for p in per), s, d, again))
    x.describe(o.t + str(per))


def twoObjects(x):
    n = {0: 7, 1: 9}[x.tier]
    os_ = [Obj(x), Obj(x)]
    # each object runs its own program, every interleaving
    prog = [[lambda o: o.setSrc(0), lambda o: o.setDst(1), lambda o: o.compute(), lambda o: o.apply(0), lambda o: o.apply(1)],
            [lambda o: o.setDst(2), lambda o: o.setSrc(4), lambda o: o.compute(), lambda o: o.apply(1), lambda o: o.apply(2)]]
    if x.tier:
        prog[0] += [lambda o: o.setDst(3), lambda o: o.compute(), lambda o: o.apply(0)]
    pc = [0, 0]
    t = ''
    kill = x.choose(4)  # delete the first object as soon as it is done, or use it to the end
    x.split()
    while pc[0] < len(prog[0]) or pc[1] < len(prog[1]):
        c = [i for i in (0, 1) if pc[i] < len(prog[i])]
        i = c[x.choose(len(c))]
        if os_[i] is not None:
            prog[i][pc[i]](os_[i])
        pc[i] += 1
        t += str(i)
        if kill == 1 + i and pc[i] == len(prog[i]):
            os_[i].finish()
            os_[i].o = None
            os_[i] = None
            kill = 0
    for o in os_:
        o and o.finish()
    x.nontrivial((t, kill))
    x.state(t)
    x.describe(t)


def rounds(x):
    """one object used again and again: each round replaces the source grid, the destination grid, both or none"""
    n = {0: 3, 1: 4}[x.tier]
    o = Obj(x)
    moves = [(s, d) for s in (None, 0, 2, 3) for d in (None, 0, 1, 4)]
    first = x.choose(9)
    o.setSrc([0, 2, 4][first % 3])
    o.setDst([0, 1, 2][first // 3])
    o.compute()
    o.apply(1)
    for k in range(1, n):
        s, d = x.pick(moves)
        if k == 1:
            x.split()
        if s is not None:
            o.setSrc(s, (0, k % 2))
        if d is not None:
            o.setDst(d)
        o.compute()
        o.apply(k % 3)
        if x.choose(2):
            o.apply((k + 1) % 3)
        else:
            o.finish()
    o.finish()
    x.nontrivial(o.t)
    x.describe(o.t)


def shapes(x):
    """the shape of a grid changes between rounds (same number of cells or not): shape and values of the result"""
    m = {0: 4, 1: 6}[x.tier]
    all_ = [(a, b) for a in range(1, m + 1) for b in range(1, m + 1)]
    which = x.choose(3)  # the destination, the source, both change
    first = x.pick(all_)
    x.split()
    second = x.pick(all_)
    layout_ = x.choose(2)
    o = Obj(x)
    other = SHAPE[3, 2]
    for n, s in enumerate([first, second, first]):
        if which != 1:
            o.setDst(SHAPE[s], layout_, layout_)
        elif n == 0:
            o.setDst(other)
        if which != 0:
            o.setSrc(SHAPE[s[::-1] if which == 2 else s], (0, 0), layout_, layout_)
        elif n == 0:
            o.setSrc(other)
        o.compute()
        o.apply(n % 2, layout_)
    # setting a grid twice without using the first
    if which != 1:
        o.setDst(SHAPE[first])
        o.setDst(SHAPE[second])
    if which != 0:
        o.setSrc(SHAPE[first])
        o.setSrc(SHAPE[second])
    o.compute()
    o.apply(2)
    o.finish()
    x.nontrivial((which, first, second, layout_))
    x.describe(o.t)


pymc.run([histories, rounds, shapes, layouts, allLayouts, periodicity, twoObjects], setup)
