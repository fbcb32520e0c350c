from c31_util import *
from amino.mat import DVec, DMat
from amino.tf import (Vec3, XAngle, YAngle, ZAngle, EulerZYX, EulerRPY, AxAng, Quat, RotMat, TfMat, DualQuat,
                      QuatTrans, TfVel, Twist, TfVec)

PI = math.pi
ANG = [0.0, 0.3, -1.1, PI / 2, 2.9, -PI / 2] + ([PI, -2.5, 1e-4] if THOROUGH else [])
PTS = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.5, -2.0, 3.0], [-1.25, 0.75, 0.1]]


# ---- reference: 3x3 matrices as lists of rows
def rx(a):
    c, s = math.cos(a), math.sin(a)
    return [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]


def ry(a):
    c, s = math.cos(a), math.sin(a)
    return [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def mv(A, v):
    return [sum(A[i][k] * v[k] for k in range(3)) for i in range(3)]


def tr(A):
    return [list(c) for c in zip(*A)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def raxang(u, t):
    n = math.sqrt(sum(x * x for x in u))
    if n == 0 and abs(math.sin(t / 2)) < 1e-12:
        return [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    x, y, z = [v / n for v in u]
    c, s, C = math.cos(t), math.sin(t), 1 - math.cos(t)
    return [[x * x * C + c, x * y * C - z * s, x * z * C + y * s],
            [y * x * C + z * s, y * y * C + c, y * z * C - x * s],
            [z * x * C - y * s, z * y * C + x * s, z * z * C + c]]


def qmat(q):
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz]


def q_of(R):
    """a quaternion of a rotation matrix, by the largest component"""
    t = [1 + R[0][0] - R[1][1] - R[2][2], 1 - R[0][0] + R[1][1] - R[2][2], 1 - R[0][0] - R[1][1] + R[2][2], 1 + R[0][0] + R[1][1] + R[2][2]]
    i = t.index(max(t))
    s = 2 * math.sqrt(t[i])
    if i == 3:
        return [(R[2][1] - R[1][2]) / s, (R[0][2] - R[2][0]) / s, (R[1][0] - R[0][1]) / s, s / 4]
    if i == 0:
        return [s / 4, (R[0][1] + R[1][0]) / s, (R[0][2] + R[2][0]) / s, (R[2][1] - R[1][2]) / s]
    if i == 1:
        return [(R[0][1] + R[1][0]) / s, s / 4, (R[1][2] + R[2][1]) / s, (R[0][2] - R[2][0]) / s]
    return [(R[0][2] + R[2][0]) / s, (R[1][2] + R[2][1]) / s, s / 4, (R[1][0] - R[0][1]) / s]


# ---- the value of an object, read from its fields
def V3(v):
    return [v.x, v.y, v.z]


def val(o):
    """rotation matrix of any orientation object"""
    if isinstance(o, Quat):
        return qmat([o.x, o.y, o.z, o.w])
    if isinstance(o, RotMat):
        return tr([V3(o.cx), V3(o.cy), V3(o.cz)])
    if isinstance(o, AxAng):
        return raxang(V3(o.axis), o.angle)
    if isinstance(o, EulerZYX):
        return mm(rz(o._z), mm(ry(o._y), rx(o._x)))
    if isinstance(o, XAngle):
        return rx(o.value)
    if isinstance(o, YAngle):
        return ry(o.value)
    if isinstance(o, ZAngle):
        return rz(o.value)
    raise AssertionError(type(o))


def raw(o):
    return bytes(o)


KINDS = ["x", "y", "z", "zyx", "rpy", "axang", "quat", "mat"]


def mkrot(kind, label):
    """an orientation of the given kind and its reference matrix"""
    if kind in "xyz":
        a = pick(ANG, label + " angle")
        return {"x": XAngle, "y": YAngle, "z": ZAngle}[kind](a), {"x": rx, "y": ry, "z": rz}[kind](a)
    if kind == "zyx":
        z, y, x = pick([(0.3, -0.4, 1.2), (-2.0, 1.0, 0.5), (0.0, 0.9, 0.0), (1.0, 0.0, 0.0), (0.0, 0.0, 2.0)], label)
        o = EulerZYX(pick([list, tuple], label + " from")((z, y, x)))
        check((o.z, o.y, o.x) == (z, y, x), "EulerZYX angles are", (o.z, o.y, o.x))
        return o, mm(rz(z), mm(ry(y), rx(x)))
    if kind == "rpy":
        r, p, y = pick([(0.3, -0.4, 1.2), (-2.0, 1.0, 0.5), (0.0, 0.9, 0.0), (1.0, 0.0, 0.0), (0.0, 0.0, 2.0)], label)
        o = EulerRPY(pick([list, tuple], label + " from")((r, p, y)))
        check((o.r, o.p, o.y) == (r, p, y), "EulerRPY angles are", (o.r, o.p, o.y))
        return o, mm(rz(y), mm(ry(p), rx(r)))
    if kind == "axang":
        u = pick([(0, 0, 1), (1, 2, -2), (-3, 0, 4)], label + " axis")
        a = pick([0.0, 0.7, -1.3, 3.0, PI / 2], label + " angle")
        o = AxAng(pick([list, tuple], label + " from")((u[0], u[1], u[2], a)))
        return o, raxang(u, a)
    R = pick([mm(rz(0.4), mm(ry(-0.8), rx(2.0))), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], rx(3.0),
              mm(ry(2.5), rz(1.0)), mm(rz(PI), rx(0.2)), mm(rz(-1.0), ry(1.3))], label)
    if kind == "quat":
        q = q_of(R)
        if choose(2, label + " sign"):
            q = [-v for v in q]
        return Quat(q), R
    o = RotMat()
    for i in range(3):
        for j in range(3):
            o[i, j] = R[i][j]
    return o, R


@space("orientation conversions")
def conversions():
    k = pick(KINDS, "kind")
    o, R = mkrot(k, "a")
    expect(val(o), R, "value of the %s" % k)
    before = raw(o)
    to = pick(["Quat", "RotMat", "AxAng", "EulerZYX", "EulerRPY", "Quat.ensure", "RotMat.ensure", "conv_from", "repr"], "to")
    what = "%s of a %s" % (to, k)
    nontrivial()
    if to == "repr":
        s = repr(o)
        nums = {"x": "value", "y": "value", "z": "value"}
        if k in nums:
            check("%f" % o.value in s, what, s)
        check(len(s) > 4 and "object at" not in s, what, s)
    elif to in ("EulerZYX", "EulerRPY"):
        C = {"EulerZYX": EulerZYX, "EulerRPY": EulerRPY}[to]
        if k in ("x", "y", "z", "quat"):
            e = C(o)
            check(type(e) is C, what, "is a", type(e).__name__)
            expect(val(e), R, what, 1e-7)
            if to == "EulerZYX":
                expect(mm(rz(e.z), mm(ry(e.y), rx(e.x))), R, what + " by its properties", 1e-7)
            else:
                expect(mm(rz(e.y), mm(ry(e.p), rx(e.r))), R, what + " by its properties", 1e-7)
        else:
            raises(lambda: C(o), what, ok=lambda e: near(val(e), R, 1e-7))
    elif to == "AxAng":
        if k in ("zyx", "rpy"):
            raises(lambda: AxAng(o), what, ok=lambda a: near(val(a), R, 1e-7))
        else:
            a = AxAng(o)
            check(abs(math.sin(a.angle / 2)) < 1e-12 or abs(sum(v * v for v in V3(a.axis)) - 1) < 1e-9, what, "has axis", V3(a.axis))
            expect(val(a), R, what, 1e-7)
    else:
        if to == "conv_from":
            h = pick([Quat, RotMat], "class")(None)
            h.conv_from(o)
        else:
            h = {"Quat": Quat, "RotMat": RotMat, "Quat.ensure": Quat.ensure, "RotMat.ensure": RotMat.ensure}[to](o)
        expect(val(h), R, what, 1e-9)
        if isinstance(h, Quat):
            check(abs(h.nrm2() - 1) < 1e-9, what, "has norm", h.nrm2())
        if to.endswith("ensure"):
            check((h is o) == isinstance(o, Quat if to == "Quat.ensure" else RotMat), what, "copies")
    check(raw(o) == before, what + " changes the orientation")


@space("orientation products")
def rot_products():
    ka, kb = pick(["quat", "mat"], "a kind"), pick(KINDS, "b kind")
    a, A = mkrot(ka, "a")
    b, B = mkrot(kb, "b")
    ra, rb = raw(a), raw(b)
    op = pick(["*", "r*", "*~", "isclose"], "op")
    what = "%s %s %s" % (ka, op, kb)
    nontrivial()
    if op == "*":
        r = a * b
        check(type(r) is type(a), what, "is a", type(r).__name__)
        expect(val(r), mm(A, B), what)
    elif op == "r*":
        if ka == "mat" and kb != "quat":
            if kb != "mat":
                raises(lambda: b * a, what, ok=lambda r: near(val(r), mm(B, A)))
            else:
                expect(val(b * a), mm(B, A), what)
        else:
            expect(val(b * a), mm(B, A), what)
    elif op == "*~":
        if kb in ("quat", "mat", "axang"):
            expect(val(~b), tr(B), "inverse")
            expect(val(a * ~b), mm(A, tr(B)), what)
        else:
            raise Skip()
    else:
        if ka != "mat":
            raise Skip()
        D = mm(A, tr(B))
        t = math.acos(max(-1, min(1, (D[0][0] + D[1][1] + D[2][2] - 1) / 2)))
        if abs(t - PI) < 1e-3:
            raise Skip()
        if t < 1e-7:
            check(a.isclose(b, 1e-6), what, "different")
        else:
            check(not a.isclose(b, t * 0.99 - 1e-9), what, "is close within", t * 0.99)
            check(a.isclose(b, t * 1.01 + 1e-9), what, "is not close within", t * 1.01)
    check(raw(a) == ra and raw(b) == rb, what + " changes an operand")


@space("rotating points")
def rotate():
    k = pick(["quat", "mat", "axang"], "kind")
    o, R = mkrot(k, "a")
    p = pick(PTS, "point")
    f = pick([list, tuple, Vec3, DVec], "point kind")
    pt = f(p)
    before = raw(o)
    q = o.rotate(pt)
    nontrivial()
    check(type(q) is Vec3, "rotate gives a", type(q).__name__)
    expect(V3(q), mv(R, p), "rotated by a " + k)
    check(list(pt[i] for i in range(3)) == p and raw(o) == before, "rotate changes an operand")
    bad = pick([[1.0, 2.0], [1.0, 2.0, 3.0, 4.0], DVec(2), "abc", 3], "bad point")
    raises(lambda: o.rotate(bad), "rotating %r" % (type(bad),))


QV = [[0.0, 0.0, 0.0, 1.0], [0.5, -0.5, 0.25, 2.0], [1.0, 0.0, 0.0, 0.0], [-0.3, 0.9, 1.2, -0.4], [0.0, 2.0, 0.0, 0.0]]


def Q4(h):
    return [h.x, h.y, h.z, h.w]


@space("quaternion algebra")
def quat_algebra():
    q = pick(QV, "a")
    h = Quat(pick([list, tuple], "from")(q))
    expect(Q4(h), q, "Quat")
    op = choose(16, "op")
    n2 = sum(v * v for v in q)
    n = math.sqrt(n2)
    nontrivial()
    inplace = False
    if op == 0:
        expect(h.nrm2(), n, "nrm2")
        check(len(h) == 4, "len")
        expect([h[i] for i in range(4)], q, "elements")
        raises(lambda: h[4], "h[4]")
        raises(lambda: h[-1], "h[-1]", ok=lambda v: v == q[3])
    elif op == 1:
        expect(Q4(h.conj()), [-q[0], -q[1], -q[2], q[3]], "conj")
    elif op == 2:
        expect(Q4(~h), [-q[0] / n2, -q[1] / n2, -q[2] / n2, q[3] / n2], "inverse")
        expect(Q4(h * ~h), [0.0, 0, 0, 1], "h * ~h")
    elif op == 3:
        check(h.normalize() is h, "normalize does not return the quaternion")
        expect(Q4(h), [v / n for v in q], "normalized")
        inplace = True
    elif op == 4:
        check(h.minimize() is h, "minimize does not return the quaternion")
        expect(Q4(h), q if q[3] >= 0 else [-v for v in q], "minimal")
        inplace = True
    elif op == 5:
        vn = math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2)
        e = math.exp(q[3])
        s = math.sin(vn) / vn if vn else 1.0
        expect(Q4(h.exp()), [e * s * v for v in q[:3]] + [e * math.cos(vn)], "exp")
    elif op == 6:
        vn = math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2)
        if vn == 0 and q[3] < 0:
            raise Skip()
        t = math.atan2(vn, q[3])
        expect(Q4(h.ln()), [(t / vn if vn else 0) * v for v in q[:3]] + [math.log(n)], "ln")
        expect(Q4(h.ln().exp()), q, "exp of ln")
    elif op == 7:
        expect(V3(h.vector()), q[:3], "vector part")
        expect(h.scalar(), q[3], "scalar part")
    elif op == 8:
        h.set_identity()
        expect(Q4(h), [0.0, 0, 0, 1], "identity")
        h.zero()
        expect(Q4(h), [0.0, 0, 0, 0], "zero")
        expect(Q4(Quat.identity()), [0.0, 0, 0, 1], "Quat.identity")
        expect(Q4(Quat()), [0.0, 0, 0, 1], "Quat()")
        inplace = True
    elif op == 9:
        s = pick([2, -0.5, 0], "s")
        expect(Q4(Quat(s)), [0.0, 0, 0, s], "Quat of a scalar")
        expect(Q4(h * s), [s * v for v in q], "h*s")
        expect(Q4(s * h), [s * v for v in q], "s*h")
        k = Quat(q)
        g = k
        g *= s
        check(g is k, "*= makes a new quaternion")
        expect(Q4(k), [s * v for v in q], "h*=s")
    elif op in (10, 11, 12, 13):
        b = pick(QV, "b")
        kb = pick(["Quat", "list", "Vec3", "scalar", "self", "tuple"], "b kind")
        if kb == "Vec3":
            b = b[:3] + [0.0]
            o = Vec3(b[:3])
        elif kb == "scalar":
            b = [0.0, 0.0, 0.0, b[3]]
            o = b[3]
        elif kb == "self":
            b, o = q, h
        else:
            o = {"Quat": Quat, "list": list, "tuple": tuple}[kb](b)
        what = "op %d with a %s" % (op, kb)
        if kb == "Vec3" and op == 11:
            return raises(lambda: o * h, what, ok=lambda r: near(Q4(r), qmul(b, q)))
        if op == 10:
            got, want = h * o, qmul(q, b) if kb != "scalar" else [b[3] * v for v in q]
        elif op == 11:
            got, want = o * h, qmul(b, q) if kb != "scalar" else [b[3] * v for v in q]
        elif op == 12:
            k = choose(3, "sum")
            if kb == "Vec3" and k == 1:
                return raises(lambda: o + h, what, ok=lambda r: near(Q4(r), add(q, b)))
            got = (h + o) if k == 0 else (o + h) if k == 1 else Quat(q).__iadd__(o)
            want = add(q, b)
        else:
            k = choose(3, "difference")
            if kb == "Vec3" and k == 1:
                return raises(lambda: o - h, what, ok=lambda r: near(Q4(r), [y - x for x, y in zip(q, b)]))
            got = (h - o) if k == 0 else (o - h) if k == 1 else Quat(q).__isub__(o)
            want = [x - y for x, y in zip(q, b)] if k != 1 else [y - x for x, y in zip(q, b)]
        if isinstance(got, Vec3):   # Vec3's own operator
            raise Skip()
        expect(Q4(got), want, what)
        if kb == "Quat":
            expect(Q4(o), b, what + " changes b")
    elif op == 14:
        b = pick(QV, "b")
        kb = pick([Quat, list, tuple], "b kind")
        s = sum((x - y) ** 2 for x, y in zip(q, b))
        expect(h.ssd(kb(b)), math.sqrt(s), "ssd")   # its root, as the tests have it for Vec3
        check((h == kb(b)) == (s == 0) and (h != kb(b)) == (s != 0), "== of quaternions")
        if kb is Quat:
            check(bool(h.isclose(Quat(b))) == (s == 0), "isclose of quaternions")
    elif op == 15:
        bad = pick(["a", [1.0, 2.0, 3.0], [1.0] * 5, None, DMat((2, 2)), {}], "bad")
        f = choose(7, "f")
        fn = [lambda: h * bad, lambda: h + bad, lambda: h - bad, lambda: bad * h, lambda: h.__imul__(bad),
              lambda: h.copy_from(bad), lambda: h.ssd(bad)][f]
        if bad is None and f in (0, 1, 2, 3, 6):
            raise Skip()     # Quat(None) is the identity
        raises(fn, "quaternion operation %d with %r" % (f, type(bad)))
    if not inplace:
        expect(Q4(h), q, "operand of op %d" % op)


@space("points")
def vec3():
    p = pick(PTS, "a")
    v = Vec3(pick([list, tuple], "from")(p))
    expect(V3(v), p, "Vec3")
    op = choose(12, "op")
    nontrivial()
    b = pick(PTS, "b")
    kb = pick(["Vec3", "list", "tuple", "DVec", "scalar"], "b kind") if op < 6 else "Vec3"
    if kb == "scalar":
        o, bl = b[0], [b[0]] * 3
    else:
        o, bl = {"Vec3": Vec3, "list": list, "tuple": tuple, "DVec": DVec}[kb](b), b
    what = "op %d with a %s" % (op, kb)
    if op == 0:
        r = v + o
        expect(V3(r), add(p, bl), what)
    elif op == 1:
        if kb == "DVec":
            raises(lambda: o + v, what, ok=lambda r: near([r[i] for i in range(3)], add(p, bl)))
        else:
            expect(V3(o + v), add(p, bl), what)
    elif op == 2:
        expect(V3(v - o), [x - y for x, y in zip(p, bl)], what)
    elif op == 3:
        if kb == "DVec":
            raises(lambda: o - v, what, ok=lambda r: near([r[i] for i in range(3)], [y - x for x, y in zip(p, bl)]))
        else:
            expect(V3(o - v), [y - x for x, y in zip(p, bl)], what)
    elif op == 4:
        w = Vec3(p)
        k = w
        k += o
        check(k is w, "+= makes a new vector")
        expect(V3(w), add(p, bl), what)
    elif op == 5:
        w = Vec3(p)
        k = w
        k -= o
        check(k is w, "-= makes a new vector")
        expect(V3(w), [x - y for x, y in zip(p, bl)], what)
    elif op == 6:
        kk = pick([Vec3, list, tuple, DVec], "kind")
        expect(V3(v.cross(kk(b))), [p[1] * b[2] - p[2] * b[1], p[2] * b[0] - p[0] * b[2], p[0] * b[1] - p[1] * b[0]], "cross")
        expect(v.dot(kk(b)), sum(x * y for x, y in zip(p, b)), "dot")
        s = sum((x - y) ** 2 for x, y in zip(p, b))
        expect(v.ssd(kk(b)), math.sqrt(s), "ssd")   # its root, as tftest.py has it
        check((v == kk(b)) == (s == 0) and (v != kk(b)) == (s != 0), "== of points")
    elif op == 7:
        s = pick([2, -0.25, 3.5], "s")
        expect(V3(v * s), [x * s for x in p], "v*s")
        expect(V3(s * v), [x * s for x in p], "s*v")
        expect(V3(v / s), [x / s for x in p], "v/s")
        w = Vec3(p)
        w *= s
        expect(V3(w), [x * s for x in p], "v*=s")
        w /= s
        expect(V3(w), p, "v/=s")
    elif op == 8:
        expect(v.nrm2(), math.sqrt(sum(x * x for x in p)), "nrm2")
        expect([v[i] for i in range(3)], p, "elements")
        check(len(v) == 3, "len")
        i = pick(range(3), "i")
        w = Vec3(p)
        w[i] = 9.0
        expect(V3(w), p[:i] + [9.0] + p[i + 1:], "setitem")
        raises(lambda: v[3], "v[3]")
        raises(lambda: v.__setitem__(3, 1.0), "v[3]=")
        expect(V3(Vec3.identity()), [0.0, 0, 0], "identity")
        w.zero()
        expect(V3(w), [0.0, 0, 0], "zero")
        s = repr(v)
        check(all("%f" % x in s for x in p), "repr", s)
    elif op == 9:
        expect(Q4(Quat(v)), p + [0.0], "Quat of a point")
        d = DVec(v)
        expect([d[i] for i in range(3)], p, "DVec of a point")
        d = DVec(3)
        d.copy_from(v)
        expect([d[i] for i in range(3)], p, "point copied to a DVec")
        w = Vec3()
        w.copy_from(DVec(p))
        expect(V3(w), p, "DVec copied to a point")
        v.copy_to(d)
        expect([d[i] for i in range(3)], p, "copy_to")
    elif op == 10:
        bad = pick([None, "ab", [1.0, 2.0], [1.0] * 4, DVec(2), DVec(4), {}, Quat()], "bad")
        f = choose(8, "f")
        if f == 3 and bad is None or f == 2 and isinstance(bad, Quat):
            raise Skip()
        if bad is None and f in (0, 1, 2, 4, 5, 6):
            raise Skip()      # Vec3(None) is the zero vector
        fn = [lambda: v + bad, lambda: v - bad, lambda: bad + v, lambda: Vec3(bad), lambda: v.cross(bad), lambda: v.dot(bad),
              lambda: v.ssd(bad), lambda: v.copy_from(bad)][f]
        raises(fn, "point operation %d with %r" % (f, type(bad)))
    elif op == 11:
        bad = pick([None, "ab", [1.0] * 3, Vec3([1, 2, 3])], "bad")
        f = choose(4, "f")
        raises([lambda: v * bad, lambda: v / bad, lambda: v.__imul__(bad), lambda: v.__itruediv__(bad)][f], "scaling a point by %r" % type(bad))
    expect(V3(v), p, what + " changes the operand")
    if kb != "scalar":
        expect([o[i] for i in range(3)], b, what + " changes b")


# ---- poses
def mkpose(kind, label):
    i = choose(5, label + " rotation")
    R = [mm(rz(0.4), mm(ry(-0.8), rx(2.0))), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], rx(3.0), mm(ry(2.5), rz(1.0)),
         rz(PI)][i]
    v = pick(PTS, label + " translation")
    C = {"mat": TfMat, "duqu": DualQuat, "qutr": QuatTrans}[kind]
    part = pick(["Quat", "RotMat"], label + " from")
    M = RotMat()
    for r in range(3):
        for c in range(3):
            M[r, c] = R[r][c]
    h = Quat(q_of(R)) if part == "Quat" else M
    t = Vec3(v) if part == "Quat" else list(v)
    o = C((h, t))
    return o, R, v


def pval(o):
    """rotation and translation of a pose, read from its fields"""
    if isinstance(o, TfMat):
        return val(o.R), V3(o.v)
    if isinstance(o, QuatTrans):
        return val(o.quat), V3(o.trans)
    r, d = Q4(o.real), Q4(o.dual)
    return qmat(r), [2 * x for x in qmul(d, [-r[0], -r[1], -r[2], r[3]])[:3]]


def pexpect(o, R, v, what):
    a, b = pval(o)
    expect(a, R, what + ": rotation")
    expect(b, v, what + ": translation")


PK = ["mat", "duqu", "qutr"]


@space("poses")
def poses():
    k = pick(PK, "kind")
    o, R, v = mkpose(k, "a")
    pexpect(o, R, v, k)
    before = raw(o)
    op = choose(10, "op")
    C = type(o)
    nontrivial()
    inplace = False
    if op == 0:
        Rt = tr(R)
        i = ~o
        check(type(i) is C, "inverse is a", type(i).__name__)
        pexpect(i, Rt, [-x for x in mv(Rt, v)], "inverse of a " + k)
    elif op == 1:
        p = pick(PTS, "point")
        f = pick([list, tuple, Vec3, DVec], "point kind")
        q = o.transform(f(p))
        expect(V3(q), add(mv(R, p), v), "point transformed by a " + k)
        bad = pick([None, [1.0, 2.0], DVec(4), "abc", 7], "bad point")
        raises(lambda: o.transform(bad), "transforming %r" % type(bad), ok=lambda r: bad is None)
    elif op == 2:
        D = pick([TfMat, DualQuat, QuatTrans], "to")
        n = pick([D, D.ensure], "by")(o)
        check(type(n) is D, "conversion is a", type(n).__name__)
        pexpect(n, R, v, "conversion from %s to %s" % (k, D.__name__))
    elif op == 3:
        expect(val(o.rotation), R, "rotation")
        expect(V3(o.translation), v, "translation")
        if k == "duqu":
            rn, dn = o.norm_parts()
            expect(rn, 1.0, "norm of the real part")
            expect(dn, 0.0, "dual part of the dual number norm")
    elif op == 4:
        kk = pick(KINDS, "kind of the new rotation")
        n, S = mkrot(kk, "new rotation")
        o.rotation = n
        pexpect(o, S, v, "%s with the rotation set from a %s" % (k, kk))
        inplace = True
    elif op == 5:
        t = pick(PTS, "new translation")
        f = pick([list, tuple, Vec3, DVec], "kind")
        o.translation = f(t)
        pexpect(o, R, t, "%s with the translation set" % k)
        inplace = True
    elif op == 6:
        o.set_identity()
        I = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
        pexpect(o, I, [0.0, 0, 0], "set_identity")
        pexpect(C(), I, [0.0, 0, 0], "default " + k)
        if k != "mat":
            pexpect(C.identity(), I, [0.0, 0, 0], "identity")
        inplace = True
    elif op == 7:
        # elements
        if k == "mat":
            want = [[R[i][0], R[i][1], R[i][2], v[i]] for i in range(3)]
            expect([[o[i, j] for j in range(4)] for i in range(3)], want, "elements")
            pexpect(TfMat.row_matrix(want), R, v, "row_matrix")
            i, j = choose(3, "i"), choose(4, "j")
            o[i, j] = 7.5
            want[i][j] = 7.5
            expect([[o[a, b] for b in range(4)] for a in range(3)], want, "elements after setitem")
            check(len(o) == 12, "len")
            bi, bj = pick([(3, 0), (0, 4), (-1, 0), (0, 5)], "bad index")
            raises(lambda: o[bi, bj], "element %d,%d" % (bi, bj))
            raises(lambda: o.__setitem__((bi, bj), 1.0), "element %d,%d" % (bi, bj))
            s = repr(TfMat.row_matrix(want))
            check(all("%f" % x in s for w in want for x in w), "repr", s)
        else:
            n = 8 if k == "duqu" else 7
            want = (Q4(o.real) + Q4(o.dual)) if k == "duqu" else (Q4(o.quat) + V3(o.trans))
            check(len(o) == n, "len")
            expect([o[i] for i in range(n)], want, "elements")
            pexpect(C([o[i] for i in range(n)]), R, v, k + " from a list")
            d = C()
            d.copy_from(o)
            check(raw(d) == before, "copy_from")
            e = C()
            o.copy_to(e)
            check(raw(e) == before, "copy_to")
            i = choose(n, "i")
            o[i] = 7.5
            want[i] = 7.5
            expect([o[i] for i in range(n)], want, "elements after setitem")
            raises(lambda: o[n], "element %d" % n)
            raises(lambda: o.__setitem__(n, 1.0), "element %d" % n)
            raises(lambda: C([0.0] * (n + 1)), "%s of %d elements" % (k, n + 1))
            raises(lambda: C([0.0] * (n - 1)), "%s of %d elements" % (k, n - 1))
        inplace = True
    elif op == 8:
        bad = pick(["a", 3, (1, 2, 3), (None, 1), (Quat(), [1.0, 2.0]), (Quat(), DVec(4)), {}, ("a", [0.0] * 3), DVec(7)], "bad")
        raises(lambda: C(bad), "%s of %r" % (k, bad))
        raises(lambda: C.ensure(bad), "%s of %r" % (k, bad))
    elif op == 9:
        if k == "mat":
            rows = pick([[[1.0] * 4] * 2, [[1.0] * 4] * 4, [[1.0] * 3] * 3, [[1.0] * 4, [1.0] * 4, [1.0] * 5]], "rows")
            raises(lambda: TfMat.row_matrix(rows), "row_matrix of the wrong size")
        elif k == "duqu":
            l = o.ln()
            # the logarithm: half the rotation vector in the real part
            h = Quat(l.real).exp()
            expect(qmat(Q4(h)), R, "exp of the real part of ln")
            check(abs(l.real.w) < 1e-9, "scalar part of ln is", l.real.w)
            expect(Q4(o.conj()), [0] * 0, "x") if False else None
            c = o.conj()
            pexpect(c, tr(R), [-x for x in mv(tr(R), v)], "conj")
        else:
            pexpect(o.conj(), tr(R), [-x for x in mv(tr(R), v)], "conj")
    if not inplace:
        check(raw(o) == before, "op %d changes the %s" % (op, k))


@space("pose products")
def pose_products():
    k = pick(PK, "kind")
    a, A, va = mkpose(k, "a")
    b, B, vb = mkpose(k, "b")
    alias = choose(2, "a*a")
    if alias:
        b, B, vb = a, A, va
    ra, rb = raw(a), raw(b)
    nontrivial()
    r = a * b
    check(type(r) is type(a), "product is a", type(r).__name__)
    pexpect(r, mm(A, B), add(mv(A, vb), va), "product of two " + k)
    check(raw(a) == ra and raw(b) == rb, "product changes an operand")
    bad = pick([None, "a", 2, [1.0] * 7, Vec3()], "bad")
    raises(lambda: a * bad, "product of a %s and %r" % (k, type(bad)),
           ok=lambda r: bad is None and type(r) is type(a) or isinstance(bad, list) and k == "qutr")


@space("pose products of different kinds")
def pose_mixed():
    ka, kb = pick(PK, "a kind"), pick(PK, "b kind")
    if ka == kb:
        raise Skip()
    a, A, va = mkpose(ka, "a")
    b, B, vb = mkpose(kb, "b")

    def ok(r):
        R, v = pval(r)
        return near(R, mm(A, B)) and near(v, add(mv(A, vb), va))
    raises(lambda: a * b, "product of a %s and a %s" % (ka, kb), ok=ok)


@space("rotation matrices")
def rotmat():
    o, R = mkrot("mat", "a")
    op = choose(6, "op")
    nontrivial()
    if op == 0:
        expect([[o[i, j] for j in range(3)] for i in range(3)], R, "elements")
        i, j = pick([(3, 0), (0, 3), (-1, 0), (0, -1), (5, 5)], "index")
        raises(lambda: o[i, j], "element")
        raises(lambda: o.__setitem__((i, j), 1.0), "element")
        check((o.rows, o.cols) == (3, 3), "size")
    elif op == 1:
        expect(val(RotMat.row_matrix(R)), R, "row_matrix")
        expect(val(RotMat.col_matrix(R)), tr(R), "col_matrix")
        f = pick([RotMat.row_matrix, RotMat.col_matrix], "f")
        bad = pick([[[1.0] * 3] * 2, [[1.0] * 2] * 3, [[1.0] * 3] * 4, [[1.0] * 3, [1.0] * 3, [1.0] * 4], None, "abc"], "bad")
        raises(lambda: f(bad), "matrix of the wrong size")
    elif op == 2:
        l = V3(o.ln())
        t = math.sqrt(sum(x * x for x in l))
        if t > PI - 1e-3 and t < PI + 1e-3:
            raise Skip()
        expect(raxang(l, t) if t > 1e-12 else [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], R, "rotation of ln", 1e-7)
        check(t <= PI + 1e-9, "ln is longer than pi")
    elif op == 3:
        expect(val(RotMat(1)), [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], "RotMat(1)")
        expect(val(RotMat()), [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], "RotMat()")
        bad = pick(["a", 2, [1.0] * 9, {}], "bad")
        raises(lambda: RotMat(bad), "RotMat of %r" % (bad,))
        raises(lambda: Quat(pick([{}, "a", [1.0] * 3, [1.0] * 5], "bad quat")), "Quat of something else")
        raises(lambda: AxAng(pick([{}, "a", [1.0] * 3, [1.0] * 5, 2], "bad axang")), "AxAng of something else")
        raises(lambda: EulerZYX(pick([{}, "a", [1.0] * 2, [1.0] * 4, 2], "bad euler")), "EulerZYX of something else")
        raises(lambda: EulerRPY(pick([{}, "a", [1.0] * 2, [1.0] * 4, 2], "bad rpy")), "EulerRPY of something else")
    elif op == 4:
        s = repr(o)
        for w in R:
            check("[" + ", ".join("%f" % x for x in w) + "]" in s or "-0.000000" in s, "repr", s)
        M = DMat((3, 3))
        M.copy_from(o)
        expect([[M[i, j] for j in range(3)] for i in range(3)], R, "copied to a DMat")
    elif op == 5:
        r = RotMat()
        o.to_rotmat(r)
        r[0, 0] = 5.0
        h = Quat(o)
    expect(val(o), R, "op %d changes the matrix" % op)


@space("axis-angle and Euler angles")
def axang():
    u = pick([(0.0, 0.0, 2.0), (1.0, 2.0, -2.0), (0.0, 3.0, 4.0)], "axis")
    a = pick([0.0, 0.7, -1.3, 3.0], "angle")
    op = choose(5, "op")
    nontrivial()
    if op == 0:
        o = AxAng((u[0], u[1], u[2], a))
        expect(val(o), raxang(u, a), "AxAng")
        check(abs(sum(x * x for x in V3(o.axis)) - 1) < 1e-12, "axis is not normalized", V3(o.axis))
        i = ~o
        expect(val(i), raxang(u, -a), "inverse")
        i.axis.x = 5
        expect(val(o), raxang(u, a), "AxAng after changing its inverse")
        c = AxAng(o)
        c.axis.x = 5
        expect(val(o), raxang(u, a), "AxAng after changing its copy")
    elif op == 1:
        o = AxAng()
        check(o.angle == 0 and V3(o.axis) == [0, 0, 1], "default AxAng")
        o.axis.copy_from(u)
        o.angle = a
        check(o.normalize() is o, "normalize")
        expect(val(o), raxang(u, a), "normalized")
        check(abs(sum(x * x for x in V3(o.axis)) - 1) < 1e-12, "axis is not normalized", V3(o.axis))
        o.set_identity()
        check(o.angle == 0, "set_identity")
    elif op == 2:
        e = EulerZYX()
        e.x, e.y, e.z = u[0], a, u[2]
        expect([e.x, e.y, e.z], [u[0], a, u[2]], "EulerZYX angles")
        expect(val(Quat(e)), mm(rz(u[2]), mm(ry(a), rx(u[0]))), "quaternion of the EulerZYX")
        check(all("%f" % x in repr(e) for x in (u[0], a, u[2])), "repr", repr(e))
    elif op == 3:
        e = EulerRPY()
        e.r, e.p, e.y = u[0], a, u[2]
        expect([e.r, e.p, e.y], [u[0], a, u[2]], "EulerRPY angles")
        expect(val(RotMat(e)), mm(rz(u[2]), mm(ry(a), rx(u[0]))), "matrix of the EulerRPY")
        check(all("%f" % x in repr(e) for x in (u[0], a, u[2])), "repr", repr(e))
    elif op == 4:
        o = AxAng((u[0], u[1], u[2], a))
        s = repr(o)
        check(all("%f" % x in s for x in V3(o.axis) + [o.angle]), "repr", s)


@space("velocities")
def velocities():
    C = pick([TfVel, Twist], "class")
    x = pick([[1.0, 2, 3, 4, 5, 6], [-0.5, 0, 0.25, 9, -8, 7.5]], "a")
    t = C()
    expect([t[i] for i in range(6)], [0.0] * 6, "new velocity")
    op = choose(7, "op")
    nontrivial()
    if op == 0:
        for i in range(6):
            t[i] = x[i]
        expect(V3(t.translational), x[:3], "translational")
        expect(V3(t.rotational), x[3:], "rotational")
        expect([t[i] for i in range(6)], x, "elements")
        raises(lambda: t[pick([6, -1, 9], "index")], "element", ok=lambda v: v == x[5])
        raises(lambda: t.__setitem__(pick([6, 7], "index2"), 1.0), "element")
    elif op == 1:
        f = pick([list, tuple, Vec3, DVec], "kind")
        t.translational = f(x[:3])
        t.rotational = f(x[3:])
        expect([t[i] for i in range(6)], x, "elements")
        raises(lambda: setattr(t, "rotational", pick([[1.0], DVec(4), None, "abc"], "bad")), "rotational of the wrong size")
    elif op == 2:
        t.from_dvec(DVec(x))
        expect([t[i] for i in range(6)], x, "from_dvec")
        d = t.to_dvec(DVec(6))
        expect([d[i] for i in range(6)], x, "to_dvec")
        raises(lambda: t.to_dvec(DVec(pick([5, 7], "size"))), "to_dvec of the wrong size")
        raises(lambda: t.from_dvec(DVec(pick([5, 7], "size2"))), "from_dvec of the wrong size")
    elif op == 3:
        t.from_dvec(DVec(x))
        d = t.to_dvec()
        s = C()
        s.from_dvec(DVec([7.0] * 6))
        e = s.to_dvec()
        expect([d[i] for i in range(6)], x, "to_dvec after another velocity's to_dvec")
        expect([e[i] for i in range(6)], [7.0] * 6, "to_dvec")
    elif op == 4:
        t.from_dvec(DVec(x))
        s = C()
        s.copy_from(t)
        expect([s[i] for i in range(6)], x, "copy")
        s.zero()
        expect([s[i] for i in range(6)], [0.0] * 6, "zero")
        expect([t[i] for i in range(6)], x, "original of a copy")
        check(len(t) == 6, "len")
    elif op == 5:
        t.from_dvec(DVec(x))
        d = DVec(6)
        d.copy_from(t)
        expect([d[i] for i in range(6)], x, "velocity copied to a DVec")
        expect([DVec(t)[i] for i in range(6)], x, "DVec of a velocity")
    elif op == 6:
        t.from_dvec(pick([DVec(12)[0:12:2], DMat((6, 2)).col_vec(1), DMat((2, 6)).row_vec(1)], "view"))
        expect([t[i] for i in range(6)], [0.0] * 6, "from a view")
