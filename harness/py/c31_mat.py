from c31_util import *
from amino.mat import DVec, DMat, CBLAS_NO_TRANS, CBLAS_TRANS
from amino.tf import Vec3

N = 4 if THOROUGH else 3
VALS = [[1.5, -2.0, 3.25, 0.5, -7.0, 8.0], [0.0, 4.0, -1.0, 2.5, 6.0, -0.25], [-0.5, 0.0, 0.0, 1.0, 0.125, 3.0]]
GUARD = 77.0


class V:
    """a vector operand: the object, its reference value and its surroundings"""

    def __init__(self, kind, vals):
        n = len(vals)
        self.kind, self.ref = kind, list(vals)
        self.keep = None
        if kind == "own":
            self.o = DVec(list(vals))
            self.look = lambda: ([], [self.o[i] for i in range(n)])
        elif kind in ("slice", "slice2"):
            st = 2 if kind == "slice2" else 1
            m = 1 + st * n + 1
            P = DVec([GUARD] * m)
            for i in range(n):
                P[1 + st * i] = vals[i]
            self.o = P[1:1 + st * (n - 1) + 1:st] if n else P[1:1]
            idx = [1 + st * i for i in range(n)]
            self.look = lambda: ([P[i] for i in range(m) if i not in idx], [P[i] for i in idx])
        elif kind == "row":
            P = DMat((3, n))
            P += GUARD
            for i in range(n):
                P[1, i] = vals[i]
            self.o = P.row_vec(1)
            self.look = lambda: ([P[i, j] for i in (0, 2) for j in range(n)], [P[1, j] for j in range(n)])
        elif kind == "col":
            P = DMat((n, 3))
            P += GUARD
            for i in range(n):
                P[i, 1] = vals[i]
            self.o = P.col_vec(1)
            self.look = lambda: ([P[i, j] for j in (0, 2) for i in range(n)], [P[i, 1] for i in range(n)])
        elif kind == "diag":
            P = DMat((n + 1, n))
            P += GUARD
            for i in range(n):
                P[i, i] = vals[i]
            self.o = P.diag_vec()
            self.look = lambda: ([P[i, j] for i in range(n + 1) for j in range(n) if i != j], [P[i, i] for i in range(n)])
        elif kind == "list":
            self.o = list(vals)
            self.look = lambda: ([], list(self.o))
        elif kind == "tuple":
            self.o = tuple(vals)
            self.look = lambda: ([], list(self.o))
        elif kind == "vec3":
            self.o = Vec3(list(vals))
            self.look = lambda: ([], [self.o.x, self.o.y, self.o.z])

    def verify(self, want=None, what=""):
        g, v = self.look()
        check(all(x == GUARD for x in g), what + ": the memory around the %s view changed: %r" % (self.kind, g))
        expect(v, self.ref if want is None else want, what + ": content of the %s operand" % self.kind)


VKINDS = ["own", "slice", "slice2", "row", "col", "diag"]


def pickvec(label, n=None, kinds=VKINDS):
    k = pick(kinds, label + " kind")
    if n is None:
        n = pick(range(0, N + 1), label + " size")
    if k in ("slice", "slice2", "row", "col", "diag") and n == 0:
        raise Skip()
    if k == "vec3" and n != 3:
        raise Skip()
    return V(k, pick(VALS, label + " values")[:n] if n else [])


def L(v):
    return [v[i] for i in range(len(v))]


def isvec(r, what):
    check(isinstance(r, DVec), "%s gives a %s" % (what, type(r).__name__))
    return L(r)


SC = [2, -0.5, 0, 1e-3]


@space("vector unary")
def vec_unary():
    a = pickvec("a")
    n = len(a.ref)
    x = a.o
    op = choose(13, "op")
    r = a.ref
    nontrivial()
    if op == 0:
        expect(isvec(-x, "-a"), [-v for v in r], "-a")
    elif op == 1:
        expect(x.nrm2(), math.sqrt(sum(v * v for v in r)), "nrm2")
    elif op == 2:
        check(len(x) == n, "len is", len(x))
        expect([v for v in x], r, "iteration")
    elif op == 3:
        c = isvec(DVec(x), "copy")
        expect(c, r, "copy")
        d = DVec(x)
        if n:
            d[0] = 99
    elif op == 4:
        check(x.zero() is x, "zero does not return the vector")
        return a.verify([0.0] * n, "zero")
    elif op == 5:
        s = pick(SC, "s")
        check(x.set(s) is x, "set does not return the vector")
        return a.verify([s] * n, "set")
    elif op == 6:
        s = pick(SC, "s")
        check(x.increment(s) is x, "increment does not return the vector")
        return a.verify([v + s for v in r], "increment")
    elif op == 7:
        i = pick([-1, -n - 1, n, n + 3], "index")
        raises(lambda: x[i], "a[%d] of %d" % (i, n), ok=lambda v: -n <= i < 0 and v == r[i])
    elif op == 8:
        i = pick([-n - 1, n, n + 3, None, "x"], "index")

        def setit():
            x[i] = 5.0
        raises(setit, "a[%r]= of %d" % (i, n))
    elif op == 9:
        i = pick(range(n), "index")
        x[i] = 6.5
        return a.verify(r[:i] + [6.5] + r[i + 1:], "setitem")
    elif op == 10:
        s = str(x)
        want = "DVec([" + ", ".join("%f" % v for v in r) + "])"
        check(s == want, "str is %r, expected %r" % (s, want))
    elif op == 11:
        check(DVec.ensure(x) is x, "ensure copies a DVec")
    elif op == 12:
        check(x == x and not (x != x) and x.isclose(x), "a vector does not equal itself")
    a.verify(None, "op %d" % op)


def scalar_or_vec(label, n):
    k = choose(9, label + " kind")
    if k < 6:
        return pickvec(label, n, [VKINDS[k]])
    if k == 6:
        return pickvec(label, n, ["list"])
    if k == 7:
        return pick(SC, label + " scalar")
    return pickvec(label, n, ["vec3", "tuple"])


@space("vector sums")
def vec_sums():
    a = pickvec("a")
    n = len(a.ref)
    m = pick([n, n + 1, n - 1], "size of b")
    if m < 0:
        raise Skip()
    alias = False
    k = pick(VKINDS + ["list", "scalar", "vec3", "tuple", "self"], "b kind")
    if k == "scalar":
        if m != n:
            raise Skip()
        s = pick(SC, "s")
        b, bo, br = None, s, [s] * n
    elif k == "self":
        if m != n:
            raise Skip()
        b, bo, br, alias = None, a.o, a.ref, True
    else:
        b = pickvec("b", m, [k])
        bo, br = b.o, b.ref
    op = pick(["+", "r+", "-", "r-", "+=", "-=", "axpy"], "op")
    x = a.o
    r = a.ref
    what = "a%sb with a %s and b %s of %d and %d" % (op, a.kind, k, n, m)
    good = m == n
    strict = k in VKINDS + ["list", "scalar", "self"]
    fns = {
        "+": (lambda: x + bo, lambda p, q: p + q), "r+": (lambda: bo + x, lambda p, q: p + q),
        "-": (lambda: x - bo, lambda p, q: p - q), "r-": (lambda: bo - x, lambda p, q: q - p),
        "axpy": (lambda: x.axpy(2.5, bo), lambda p, q: p + 2.5 * q)}
    if op in ("+=", "-="):
        def call():
            y = x
            if op == "+=":
                y += bo
            else:
                y -= bo
            return y
        ref = (lambda p, q: p + q) if op == "+=" else (lambda p, q: p - q)
    else:
        call, ref = fns[op]
    if op == "axpy" and not (k in VKINDS + ["self"]):
        raises(call, what)
        return a.verify(None, what)
    inplace = op in ("+=", "-=", "axpy")
    if good:
        want = [ref(p, q) for p, q in zip(r, br)]
        if not strict:
            try:
                got = call()
            except Exception:
                step()
                return a.verify(None, what)
            if isinstance(got, Vec3):      # vec3 + DVec is the other class's operator
                expect([got.x, got.y, got.z], want, what)
                return a.verify(None, what)
        else:
            got = call()
        nontrivial()
        expect(isvec(got, what), want, what)
        if inplace:
            check(got is x, what + " does not return a itself")
            a.verify(want, what)
        else:
            if n:
                got[0] = 12345.0
            a.verify(None, what)
        if b:
            b.verify(None, what)
    else:
        raises(call, what)
        a.verify(None, what)
        b.verify(None, what)


@space("vector scaling")
def vec_scale():
    a = pickvec("a")
    n = len(a.ref)
    x, r = a.o, a.ref
    op = pick(["*", "r*", "/", "*=", "/=", "bad*", "bad*=", "bad/", "bad+"], "op")
    what = "a%s with a %s" % (op, a.kind)
    nontrivial()
    if op.startswith("bad"):
        bad = pick([None, "2", [1.0] * n, DVec([1.0] * n), DMat((n, n)), {}, 1j], "operand")
        if op == "bad+" and (isinstance(bad, DVec) or isinstance(bad, list)):
            raise Skip()

        def call():
            y = x
            if op == "bad*":
                return y * bad
            if op == "bad/":
                return y / bad
            if op == "bad+":
                return y + bad
            y *= bad
            return y
        raises(call, what + " " + repr(type(bad)))
        return a.verify(None, what)
    s = pick(SC, "s")
    if op in ("/", "/=") and s == 0:
        def call():
            y = x
            if op == "/":
                return y / s
            y /= s
            return y
        raises(call, what + " by zero", ok=lambda v: True)
        return None

    def run():
        y = x
        if op == "*":
            return y * s
        if op == "r*":
            return s * y
        if op == "/":
            return y / s
        if op == "*=":
            y *= s
        else:
            y /= s
        return y
    got = run()
    want = [v / s if "/" in op else v * s for v in r]
    expect(isvec(got, what), want, what)
    if op.endswith("="):
        check(got is x, what + " does not return a itself")
        a.verify(want, what)
    else:
        a.verify(None, what)


@space("vector comparison and copies")
def vec_cmp():
    a = pickvec("a")
    n = len(a.ref)
    m = pick([n, n + 1, n - 1], "size of b")
    if m < 0:
        raise Skip()
    k = pick(VKINDS + ["list", "tuple", "vec3"], "b kind")
    b = pickvec("b", m, [k])
    op = pick(["ssd", "==", "!=", "isclose", "copy_from", "copy_to", "DVec()"], "op")
    x, y = a.o, b.o
    what = "a %s b with a %s and b %s of %d and %d" % (op, a.kind, k, n, m)
    ssd = sum((p - q) ** 2 for p, q in zip(a.ref, b.ref))
    nontrivial()
    if op == "DVec()":
        expect(L(DVec(y)), b.ref, what)
    elif op in ("copy_from", "copy_to"):
        f = (lambda: x.copy_from(y)) if op == "copy_from" else (lambda: x.copy_to(y))
        if m != n or (op == "copy_to" and k == "tuple" and n):
            raises(f, what)
        else:
            f()
            if op == "copy_from":
                a.verify(b.ref, what)
                return b.verify(None, what)
            b.verify(a.ref, what)
            return a.verify(None, what)
    elif m != n:
        if op == "ssd":
            raises(lambda: x.ssd(y), what)
        elif op == "isclose":
            raises(lambda: x.isclose(y), what, ok=lambda v: v is False)
        elif op == "==":
            raises(lambda: x == y, what, ok=lambda v: v is False)
        else:
            raises(lambda: x != y, what, ok=lambda v: v is True)
    elif op == "ssd":
        expect(x.ssd(y), ssd, what)
    elif op == "==":
        check((x == y) is (ssd == 0), what, "is", x == y)
    elif op == "!=":
        check((x != y) is (ssd != 0), what, "is", x != y)
    elif op == "isclose":
        if k in ("list", "tuple"):
            raises(lambda: x.isclose(y), what, ok=lambda v: v == (ssd == 0))
        else:
            check(bool(x.isclose(y)) == (ssd == 0), what, "is", x.isclose(y))
            check(x.isclose(y, abs_tol=ssd + 1e-6) is True or x.isclose(y, abs_tol=ssd + 1e-6) == True, what, "not within the tolerance")
    a.verify(None, what)
    b.verify(None, what)


@space("vector compared with other kinds")
def vec_cmp_kinds():
    a = pickvec("a")
    n = len(a.ref)
    o = pick([None, "ab", 7, 1.5, DMat((n, 1)), {}], "other")
    op = pick(["==", "!=", "copy_from", "copy_to", "ssd"], "op")
    what = "a %s %s" % (op, type(o).__name__)
    x = a.o
    nontrivial()
    if op == "==":
        raises(lambda: x == o, what, ok=lambda v: v is False or (n == 0 and v is True) or (isinstance(o, int) and not any(a.ref)))
    elif op == "!=":
        raises(lambda: x != o, what, ok=lambda v: v is True or (n == 0 and v is False) or (isinstance(o, int) and not any(a.ref)))
    else:
        if n == 0 and isinstance(o, dict) or (op == "ssd" and isinstance(o, int)):
            raise Skip()
        f = getattr(x, op)
        raises(lambda: f(o), what, ok=lambda v: n == 0)
    a.verify(None, what)


@space("vector slices")
def vec_slices():
    a = pickvec("a", pick(range(1, N + 1), "n"))
    n = len(a.ref)
    rng = [None] + list(range(-2, n + 3))
    st = pick(rng, "start")
    en = pick(rng, "stop")
    sp = pick([None, 1, 2, 3, 0, -1], "step")
    x = a.o
    what = "a[%r:%r:%r] of %d (%s)" % (st, en, sp, n, a.kind)
    inr = (st is None or 0 <= st < n) and (en is None or 0 <= en <= n) and (sp is None or sp > 0)
    want = a.ref[st:en:sp] if sp != 0 else None
    if inr and (0 if st is None else st) < (n if en is None else en):
        s = x[st:en:sp]
        nontrivial()
        expect(isvec(s, what), want, what)
        # a view: writes go through
        i = pick(range(len(want)), "element")
        s[i] = 55.0
        w = list(a.ref)
        w[range(n)[st:en:sp][i]] = 55.0
        a.verify(w, what)
    else:
        raises(lambda: x[st:en:sp], what, ok=lambda v: want is not None and isinstance(v, DVec) and near(L(v), want))
        a.verify(None, what)


@space("vector construction")
def vec_ctor():
    k = choose(9, "kind")
    nontrivial()
    if k == 0:
        n = pick(range(0, 5), "n")
        v = DVec(n)
        check(len(v) == n, "DVec(%d) has %d elements" % (n, len(v)))
        for i in range(n):
            v[i] = i + 0.5
        expect(L(v), [i + 0.5 for i in range(n)], "content")
    elif k == 1:
        v = DVec()
        check(len(v) == 0, "DVec() is not empty")
        check(L(v) == [] and str(v) == "DVec([])", "DVec() has content")
    elif k == 2:
        raises(lambda: DVec(-1), "DVec(-1)")
    elif k == 3:
        raises(lambda: DVec(1.5), "DVec(1.5)")
    elif k == 4:
        raises(lambda: DVec(["a"]), "DVec(['a'])")
    elif k == 5:
        raises(lambda: DVec([None, 1.0]), "DVec([None,1])")
    elif k == 6:
        raises(lambda: DVec("abc"), "DVec('abc')")
    elif k == 7:
        v = DVec(range(4))
        expect(L(v), [0.0, 1, 2, 3], "DVec(range(4))")
    elif k == 8:
        raises(lambda: DVec(DMat((2, 2))), "DVec(DMat)")


@space("views outlive their parents")
def lifetimes():
    n = pick(range(1, N + 1), "n")
    vals = VALS[0][:n]
    k = choose(9, "kind")

    def M():
        m = DMat((n, n))
        for i in range(n):
            for j in range(n):
                m[i, j] = vals[i] + 10 * j
        return m
    if k == 0:
        v, want = DVec(vals)[0:n], vals
    elif k == 1:
        v, want = DVec(vals)[0:n][0:n:2], vals[::2]
    elif k == 2:
        v, want = M().row_vec(0), [vals[0] + 10 * j for j in range(n)]
    elif k == 3:
        v, want = M().col_vec(n - 1), [x + 10 * (n - 1) for x in vals]
    elif k == 4:
        v, want = M().diag_vec(), [vals[i] + 10 * i for i in range(n)]
    elif k == 5:
        v, want = M()[0:n, 0:n].row_vec(0), [vals[0] + 10 * j for j in range(n)]
    elif k == 6:
        v, want = M()[0:n, 0:n].col_vec(0)[0:n], vals
    elif k == 7:
        b = M()[0:n, 0:n]
        churn()
        nontrivial()
        return expect([b[i, j] for j in range(n) for i in range(n)], [vals[i] + 10 * j for j in range(n) for i in range(n)], "block of a temporary")
    elif k == 8:
        p = DVec(vals)
        v, want = p[0:n], vals
        p = DVec([9.0] * n)
    churn()
    nontrivial()
    expect(L(v), want, "view %d of a temporary" % k)
    v *= 2
    expect(L(v), [2 * w for w in want], "view %d of a temporary, scaled" % k)


class M:
    """a matrix operand"""

    def __init__(self, kind, m, n, seed):
        self.kind = kind
        # odd values, so that different elements never agree by chance
        self.ref = [[((7 * i + 3 * j + 5 * seed) % 11) - 4.0 + 0.25 * i for j in range(n)] for i in range(m)]
        self.m, self.n = m, n
        if kind == "own":
            self.o = DMat((m, n))
            self.parent, self.off = self.o, (0, 0)
        else:
            self.parent, self.off = DMat((m + 2, n + 2)), (1, 1)
            self.parent += GUARD
            self.o = self.parent[1:1 + m, 1:1 + n]
        for i in range(m):
            for j in range(n):
                self.parent[i + self.off[0], j + self.off[1]] = self.ref[i][j]

    def val(self):
        return [[self.o[i, j] for j in range(self.n)] for i in range(self.m)]

    def verify(self, want=None, what=""):
        P, (a, b) = self.parent, self.off
        g = [P[i, j] for i in range(P.rows) for j in range(P.cols) if not (a <= i < a + self.m and b <= j < b + self.n)]
        check(all(x == GUARD for x in g), what + ": the memory around the block changed")
        v = [[P[i + a, j + b] for j in range(self.n)] for i in range(self.m)]
        expect(v, self.ref if want is None else want, what + ": content of the %s matrix" % self.kind)


def mval(A, what):
    check(isinstance(A, DMat), "%s gives a %s" % (what, type(A).__name__))
    return [[A[i, j] for j in range(A.cols)] for i in range(A.rows)]


def pickmat(label, m=None, n=None):
    k = pick(["own", "block"], label + " kind")
    m = pick(range(1, N + 1), label + " rows") if m is None else m
    n = pick(range(1, N + 1), label + " cols") if n is None else n
    if k == "block" and (m < 1 or n < 1):
        raise Skip()
    return M(k, m, n, choose(2, label + " values"))


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]) if B else 0)] for i in range(len(A))]


def tr(A):
    return [list(c) for c in zip(*A)]


@space("matrix unary")
def mat_unary():
    A = pickmat("A")
    x, r, m, n = A.o, A.ref, A.m, A.n
    op = choose(14, "op")
    what = "op %d of %dx%d (%s)" % (op, m, n, A.kind)
    nontrivial()
    if op == 0:
        expect(mval(-x, what), [[-v for v in w] for w in r], "-A")
    elif op == 1:
        expect(mval(x.transpose(), what), tr(r), "transpose")
    elif op == 2:
        expect(x.nrm2(), math.sqrt(sum(v * v for w in r for v in w)), "nrm2")
    elif op == 3:
        c = DMat(x)
        expect(mval(c, what), r, "copy")
        c[0, 0] = 99
    elif op == 4:
        i = pick([-1, m, m + 2, None, "a"], "i")
        raises(lambda: x.row_vec(i), "row_vec(%r)" % i, ok=lambda v: i == -1 and near(L(v), r[-1]))
    elif op == 5:
        i = pick([-1, n, n + 2, None], "i")
        raises(lambda: x.col_vec(i), "col_vec(%r)" % i, ok=lambda v: i == -1 and near(L(v), tr(r)[-1]))
    elif op == 6:
        i = pick(range(m), "i")
        v = x.row_vec(i)
        expect(L(v), r[i], "row")
        j = pick(range(n), "j")
        v[j] = 33.0
        w = [list(q) for q in r]
        w[i][j] = 33.0
        return A.verify(w, what)
    elif op == 7:
        j = pick(range(n), "j")
        v = x.col_vec(j)
        expect(L(v), [q[j] for q in r], "column")
        i = pick(range(m), "i")
        v[i] = 33.0
        w = [list(q) for q in r]
        w[i][j] = 33.0
        return A.verify(w, what)
    elif op == 8:
        v = x.diag_vec()
        expect(L(v), [r[i][i] for i in range(min(m, n))], "diagonal")
        v *= 3
        return A.verify([[3 * r[i][j] if i == j else r[i][j] for j in range(n)] for i in range(m)], what)
    elif op == 9:
        i, j = pick([(-1, 0), (0, -1), (m, 0), (0, n), (m, n), (0, n + 5)], "index")
        raises(lambda: x[i, j], "A[%d,%d]" % (i, j), ok=lambda v: i < m and j < n and v == r[i][j])

        def setit():
            x[i, j] = 1.0
        if i >= m or j >= n:
            raises(setit, "A[%d,%d]=" % (i, j))
    elif op == 10:
        check((x.rows, x.cols, len(x)) == (m, n, m * n), "size is", (x.rows, x.cols, len(x)))
        check(x == x and not x != x and x.isclose(x), "a matrix does not equal itself")
    elif op == 11:
        s = str(x)
        for i in range(m):
            row = "[" + ", ".join("%f" % v for v in r[i]) + "]"
            check(row in s, "row %r is missing from %r" % (row, s))
    elif op == 12:
        B = DMat.row_matrix(r)
        expect(mval(B, what), r, "row_matrix")
        B = DMat.row_matrix([x.row_vec(i) for i in range(m)])
        expect(mval(B, what), r, "row_matrix of rows")
    elif op == 13:
        B = DMat.col_matrix(tr(r))
        expect(mval(B, what), r, "col_matrix")
        B = DMat.col_matrix([x.col_vec(i) for i in range(n)])
        expect(mval(B, what), r, "col_matrix of columns")
    A.verify(None, what)


@space("matrix construction")
def mat_ctor():
    k = choose(7, "kind")
    nontrivial()
    if k == 0:
        m, n = pick(range(0, 4), "m"), pick(range(0, 4), "n")
        A = DMat((m, n))
        check((A.rows, A.cols, len(A)) == (m, n, m * n), "DMat((%d,%d)) has the wrong size" % (m, n))
        for i in range(m):
            for j in range(n):
                A[i, j] = 10 * i + j
        expect([[A[i, j] for j in range(n)] for i in range(m)], [[10.0 * i + j for j in range(n)] for i in range(m)], "content")
    elif k == 1:
        rows = pick([[[1, 2], [3]], [[1], [2, 3]], [[1, 2], [3, 4, 5]], [[1, 2], []]], "rows")
        f = pick([DMat.row_matrix, DMat.col_matrix], "f")
        raises(lambda: f(rows), "matrix of ragged rows")
    elif k == 2:
        raises(lambda: DMat(pick([3, "a", 1.5, [1, 2], (1,), (1, 2, 3), (-1, 2), (1.5, 2), None.__class__], "arg")), "DMat of something else")
    elif k == 3:
        f = pick([DMat.row_matrix, DMat.col_matrix], "f")
        A = f([])
        check(len(A) == 0, "matrix of nothing is not empty")
    elif k == 4:
        f = pick([DMat.row_matrix, DMat.col_matrix], "f")
        A = f([(1, 2, 3), DVec([4, 5, 6]), Vec3([7, 8, 9])])
        w = [[1.0, 2, 3], [4.0, 5, 6], [7.0, 8, 9]]
        expect(mval(A, "matrix"), w if f is DMat.row_matrix else tr(w), "matrix of mixed rows")
    elif k == 5:
        raises(lambda: DMat.row_matrix([["a"]]), "matrix of strings")
    elif k == 6:
        A = DMat()
        check(len(A) == 0, "DMat() is not empty")


@space("matrix blocks")
def mat_blocks():
    A = pickmat("A")
    m, n = A.m, A.n
    rr = [None] + list(range(-1, m + 2))
    rc = [None] + list(range(-1, n + 2))
    i0, i1 = pick(rr, "row start"), pick(rr, "row stop")
    j0, j1 = pick(rc, "col start"), pick(rc, "col stop")
    x = A.o
    what = "A[%r:%r,%r:%r] of %dx%d" % (i0, i1, j0, j1, m, n)
    want = [w[j0:j1] for w in A.ref[i0:i1]]

    def ok(a, b, k):
        a = 0 if a is None else a
        b = k if b is None else b
        return 0 <= a < b <= k
    if ok(i0, i1, m) and ok(j0, j1, n):
        B = x[i0:i1, j0:j1]
        nontrivial()
        expect(mval(B, what), want, what)
        B[0, 0] = 44.0
        w = [list(q) for q in A.ref]
        w[i0 or 0][j0 or 0] = 44.0
        A.verify(w, what)
    else:
        raises(lambda: x[i0:i1, j0:j1], what, ok=lambda v: isinstance(v, DMat) and (
            (v.rows, v.cols) == (len(want), len(want[0]) if want else len(range(n)[j0:j1])) and near(mval(v, what), want)))
        A.verify(None, what)


@space("matrix sums and scaling")
def mat_sums():
    A = pickmat("A")
    m, n, x, r = A.m, A.n, A.o, A.ref
    kind = pick(["mat", "scalar", "self", "bad"], "b")
    B = None
    good = True
    if kind == "mat":
        dm, dn = pick([(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)], "size difference")
        if m + dm < 1 or n + dn < 1:
            raise Skip()
        B = pickmat("B", m + dm, n + dn)
        b, br, good = B.o, B.ref, (dm, dn) == (0, 0)
        op = pick(["+", "-", "+=", "-=", "ssd", "==", "!=", "isclose", "copy"], "op")
    elif kind == "scalar":
        b = pick(SC, "s")
        br = [[b] * n for _ in range(m)]
        op = pick(["+", "r+", "-", "r-", "+=", "-=", "*", "r*", "*=", "/", "/="], "op")
        if "/" in op and b == 0:
            raise Skip()
    elif kind == "self":
        b, br = x, r
        op = pick(["+", "-", "+=", "-=", "ssd", "=="], "op")
    else:
        b = pick([None, "x", [1.0] * n, DVec([1.0] * n) if n != m else DVec(n + 1), {}, (1, 2)], "operand")
        if isinstance(b, list) and False:
            raise Skip()
        op = pick(["+", "r+", "-", "r-", "+=", "-=", "*=", "r*", "/", "/=", "copy", "ssd"], "op")
        good = False
    what = "A %s %s (%s %dx%d)" % (op, kind, A.kind, m, n)

    def call():
        y = x
        if op == "+":
            return y + b
        if op == "r+":
            return b + y
        if op == "-":
            return y - b
        if op == "r-":
            return b - y
        if op == "*":
            return y * b
        if op == "r*":
            return b * y
        if op == "/":
            return y / b
        if op == "+=":
            y += b
        elif op == "-=":
            y -= b
        elif op == "*=":
            y *= b
        elif op == "/=":
            y /= b
        elif op == "ssd":
            return y.ssd(b)
        elif op == "==":
            return y == b
        elif op == "!=":
            return y != b
        elif op == "isclose":
            return y.isclose(b)
        elif op == "copy":
            y.copy_from(b)
        return y
    if not good:
        raises(call, what, ok=lambda v: (op in ("==", "isclose") and v is False) or (op == "!=" and v is True))
        A.verify(None, what)
        if B:
            B.verify(None, what)
        return
    nontrivial()
    f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q}
    ssd = sum((p - q) ** 2 for v, w in zip(r, br) for p, q in zip(v, w)) if kind != "scalar" else 0
    got = call()
    if op == "ssd":
        expect(got, ssd, what)
    elif op in ("==", "!=", "isclose"):
        check(bool(got) == ((ssd == 0) != (op == "!=")), what, "is", got)
    else:
        o = "copy" if op == "copy" else op.strip("r=")
        if op == "copy":
            want = br
        elif op == "r-":
            want = [[q - p for p, q in zip(v, w)] for v, w in zip(r, br)]
        else:
            want = [[f[o](p, q) for p, q in zip(v, w)] for v, w in zip(r, br)]
        expect(mval(got, what), want, what)
        if op.endswith("=") or op == "copy":
            check(got is x, what + " does not return A itself")
            A.verify(want, what)
            if B:
                B.verify(None, what)
            return
    A.verify(None, what)
    if B:
        B.verify(None, what)


@space("products")
def products():
    A = pickmat("A")
    m, n, x, r = A.m, A.n, A.o, A.ref
    kind = pick(["DVec", "list", "DMat"], "b")
    d = pick([0, 1, -1], "size difference")
    if n + d < 1:
        raise Skip()
    if kind == "DMat":
        B = pickmat("B", n + d)
        what = "A*B of %dx%d and %dx%d" % (m, n, B.m, B.n)
        if d:
            raises(lambda: x * B.o, what)
        else:
            nontrivial()
            expect(mval(x * B.o, what), mm(r, B.ref), what)
        B.verify(None, what)
    else:
        b = pickvec("b", n + d, ["list"] if kind == "list" else VKINDS)
        what = "A*b of %dx%d and %d" % (m, n, n + d)
        if d:
            raises(lambda: x * b.o, what)
        else:
            nontrivial()
            expect(isvec(x * b.o, what), [sum(p * q for p, q in zip(w, b.ref)) for w in r], what)
        b.verify(None, what)
    A.verify(None, what)


def op(t, A):
    return tr(A) if t == CBLAS_TRANS else A


@space("gemv")
def gemv():
    A = pickmat("A")
    t = pick([CBLAS_NO_TRANS, CBLAS_TRANS], "trans")
    a, bt = pick([(1, 0), (-2.5, 1), (0.5, -0.5)], "scales")
    R = op(t, A.ref)
    dx, dy = pick([(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1)], "size differences")
    nx, ny = len(R[0]) + dx, len(R) + dy
    if nx < 1 or ny < 1:
        raise Skip()
    xk = pick(["own", "slice2", "row"], "x kind")
    yk = pick(["own", "slice2", "row"], "y kind")
    x, y = V(xk, (VALS[0] + VALS[1])[:nx]), V(yk, (VALS[1] + VALS[0])[:ny])
    what = "gemv(trans %d) of %dx%d with x of %d, y of %d" % (t, A.m, A.n, nx, ny)
    if (dx, dy) != (0, 0):
        raises(lambda: y.o.gemv(t, a, A.o, x.o, bt), what)
        y.verify(None, what)
    else:
        nontrivial()
        check(y.o.gemv(t, a, A.o, x.o, bt) is y.o, "gemv does not return the vector")
        y.verify([a * sum(p * q for p, q in zip(w, x.ref)) + bt * v for w, v in zip(R, y.ref)], what)
    x.verify(None, what)
    A.verify(None, what)


@space("gemm")
def gemm():
    m, k, n = (pick(range(1, N + 1), "m"), pick(range(1, N + 1), "k"), pick(range(1, N + 1), "n"))
    ta, tb = pick([CBLAS_NO_TRANS, CBLAS_TRANS], "transA"), pick([CBLAS_NO_TRANS, CBLAS_TRANS], "transB")
    d = pick([(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)], "size differences")
    ka, kb, kc = (pick(["own", "block"], "A"), pick(["own", "block"], "B"), pick(["own", "block"], "C"))
    a, bt = pick([(1, 0), (-2.5, 0.5)], "scales")
    am, ak = m, k + d[0]
    A = M(ka, *((am, ak) if ta == CBLAS_NO_TRANS else (ak, am)), 0)
    bk, bn = k, n + d[1]
    B = M(kb, *((bk, bn) if tb == CBLAS_NO_TRANS else (bn, bk)), 1)
    C = M(kc, m + d[2], n + d[3], 2)
    what = "gemm(%d,%d) of %dx%dx%d off by %r" % (ta, tb, m, k, n, d)
    if any(d):
        raises(lambda: C.o.gemm(ta, tb, a, A.o, B.o, bt), what)
        C.verify(None, what)
    else:
        nontrivial()
        check(C.o.gemm(ta, tb, a, A.o, B.o, bt) is C.o, "gemm does not return the matrix")
        P = mm(op(ta, A.ref), op(tb, B.ref))
        C.verify([[a * p + bt * c for p, c in zip(v, w)] for v, w in zip(P, C.ref)], what)
    A.verify(None, what)
    B.verify(None, what)


@space("inverse and pseudoinverse")
def inverses():
    m, n = pick(range(1, N + 1), "m"), pick(range(1, N + 1), "n")
    k = pick(["own", "block"], "kind")
    A = M(k, m, n, 0)
    s = choose(3, "values")
    for i in range(m):
        for j in range(n):
            v = [2.0 * (i == j) + (0.5 if j == i + 1 else 0), (3.0 if i + j == min(m, n) - 1 else 0.25 * (i == j)), [[2.0, -1, 0.5, 0.25], [0, 1.5, 1, -1], [1, 1, -2, 0], [0.5, 0, 0, 3]][i][j]][s]
            A.ref[i][j] = v
            A.o[i, j] = v
    f = pick(["inv", "pinv"], "f")
    x = A.o
    what = "%s of %r" % (f, A.ref)
    nontrivial()
    if f == "inv":
        if m != n:
            raises(lambda: x.inv(), what)
        else:
            I = mm(mval(x.inv(), what), A.ref)
            expect(I, [[float(i == j) for j in range(n)] for i in range(n)], what + " times the matrix", 1e-8)
    else:
        P = mval(x.pinv(), what)
        check((len(P), len(P[0])) == (n, m), what + " has the wrong size")
        R = A.ref
        expect(mm(mm(R, P), R), R, "A A+ A", 1e-7)
        expect(mm(mm(P, R), P), P, "A+ A A+", 1e-7)
        S = mm(R, P)
        expect(S, tr(S), "A A+ symmetric", 1e-7)
        S = mm(P, R)
        expect(S, tr(S), "A+ A symmetric", 1e-7)
    A.verify(None, what)
