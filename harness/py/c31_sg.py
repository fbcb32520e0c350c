import ctypes
import amino
from c31_util import *
from c31_tf import mm, mv, tr, add, raxang, q_of, qmat, rx, ry, rz, V3, Q4, val, pval, pexpect
from amino.lib import libamino
from amino.mat import DVec, DMat
from amino.tf import Vec3, Quat, RotMat, TfMat, DualQuat, QuatTrans, TfVel, Twist, XAngle
from amino.scenegraph import (GeomOpt, Geom, SceneGraph, SubSceneGraph, FRAME_ROOT, FRAME_NONE, CONFIG_NONE)
from amino.kinematics import SceneFK, SceneDK, SceneIK
from amino.collision import SceneCollision, SceneCollisionSet
from amino.motionplanning import MotionPlan
from amino.scenewin import SceneWin, LIBAMINOGL

PI = math.pi
I3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]


def compose(a, b):
    return mm(a[0], b[0]), add(mv(a[0], b[1]), a[1])


def invert(a):
    R = tr(a[0])
    return R, [-x for x in mv(R, a[1])]


TFS = [(I3, [0.0, 0.0, 0.0]), (mm(rz(0.4), rx(-0.7)), [1.0, -0.5, 0.25]), (ry(1.2), [0.0, 2.0, 0.0])]


def mktf(k, form):
    R, v = TFS[k]
    if form == 0:
        return QuatTrans((Quat(q_of(R)), Vec3(v)))
    if form == 1:
        return (Quat(q_of(R)), list(v))
    if form == 2:
        return TfMat((RotMat.row_matrix(R), v))
    return DualQuat((Quat(q_of(R)), Vec3(v)))


class Ref:
    """reference scene: frame -> (parent, type, tf, config, axis, offset)"""

    def __init__(self):
        self.f = {}

    def configs(self):
        return sorted({f[3] for f in self.f.values() if f[3]})

    def abs(self, name, q):
        if name == "":
            return I3, [0.0, 0.0, 0.0]
        p, t, tf, c, ax, off = self.f[name]
        e = compose(self.abs(p, q), tf)
        if t == "r":
            e = compose(e, (raxang(ax, q[c] + off), [0.0] * 3))
        elif t == "p":
            e = compose(e, (I3, [(q[c] + off) * a for a in ax]))
        return e

    def rel(self, a, b, q):
        return compose(invert(self.abs(a, q)), self.abs(b, q))

    def path(self, a, b):
        """frames moved by joints from a to its descendant b"""
        out = []
        while b != a:
            if b == "":
                return None
            out.append(b)
            b = self.f[b][0]
        return out[::-1]


def addframe(sg, ref, parent, name, t, k, form=0, config=None, axis=(0, 0, 1), offset=0.0, geom=None, limits=None):
    tf = mktf(k, form)
    if t == "f":
        sg.add_frame_fixed(parent, name, tf=tf, geom=geom)
        ref.f[name] = (parent, t, TFS[k], None, None, None)
        return
    ax = list(axis)
    if t == "r":
        sg.add_frame_revolute(parent, name, tf=tf, config_name=config, axis=axis, offset=offset, geom=geom)
    else:
        sg.add_frame_prismatic(parent, name, tf=tf, config_name=config, axis=axis, offset=offset, geom=geom, limits=limits)
    ref.f[name] = (parent, t, TFS[k], config or name, ax, offset)


def arm(n=2, geom=False, limits=None):
    """a planar arm of n revolute joints, a slider beside it and a fixed tool"""
    sg, ref = SceneGraph(), Ref()
    g = (lambda: Geom.box({"collision": True}, [0.1, 0.1, 0.1])) if geom else (lambda: None)
    p = ""
    for i in range(n):
        nm = "j%d" % i
        addframe(sg, ref, p, nm, "r", 1 if i else 0, config="q%d" % i, geom=g())
        p = nm
    addframe(sg, ref, p, "tool", "f", 2, geom=g())
    addframe(sg, ref, "", "slide", "p", 1, axis=(1, 0, 0), geom=g(), limits=limits)
    sg.init()
    return sg, ref


QS = [[0.0, 0.0, 0.0, 0.0], [0.3, -0.9, 1.4, 0.2], [-2.0, 0.5, 0.1, 1.0]]


def asconf(form, names, vals, sg):
    """a configuration in one of its forms, ordered as the scene's"""
    d = dict(zip(names, vals))
    v = [d[sg.config_name(i)] for i in range(sg.config_count)]
    return {"list": lambda: v, "tuple": lambda: tuple(v), "DVec": lambda: DVec(v), "dict": lambda: d,
            "view": lambda: colview(v)}[form]()


def colview(v):
    M = DMat((2, len(v)))
    r = M.row_vec(1)
    for i, x in enumerate(v):
        r[i] = x
    return r


FORMS = ["list", "tuple", "DVec", "dict", "view"]


@space("scene graphs and forward kinematics")
def scenes():
    n = 3 if not THOROUGH else 4
    sg, ref = SceneGraph(), Ref()
    names = []
    for i in range(n):
        nm = "f%d" % i
        p = pick([""] + names, "parent of " + nm)
        t = pick(["f", "r", "p"], "type of " + nm)
        k = (i + choose(2, "tf of " + nm)) % 3
        if t == "f":
            addframe(sg, ref, p, nm, t, k, form=(i + k) % 4)
        else:
            # the last joint may share the first's variable
            ax = [(0, 0, 1), (1, 0, 0), (0.6, 0, 0.8)][(i + k) % 3]
            sh = i == n - 1 and ref.configs() and choose(2, "shared variable")
            addframe(sg, ref, p, nm, t, k, form=(i + k) % 4, config=ref.configs()[0] if sh else ("c" + nm if k else None),
                     axis=ax if i % 2 else list(ax), offset=[0.0, 0.4][k % 2])
        names.append(nm)
    check(sg.init() is sg, "init does not return the scene")
    cs = ref.configs()
    check(sg.frame_count == n, "frame_count is", sg.frame_count)
    check(sg.config_count == len(cs), "config_count is", sg.config_count)
    check(sorted(sg.frame_name(i) for i in range(n)) == names, "frame names are", [sg.frame_name(i) for i in range(n)])
    check(sorted(sg.config_name(i) for i in range(len(cs))) == cs, "config names")
    for nm in names:
        check(sg.frame_name(sg.frame_id(nm)) == nm, "id of", nm)
        check(sg.get_parent(nm) == ref.f[nm][0] and sg.get_parent(sg.frame_id(nm)) == ref.f[nm][0], "parent of", nm, sg.get_parent(nm))
    for c in cs:
        check(sg.config_name(sg.config_id(c)) == c, "id of", c)
    nontrivial()
    fk = SceneFK(sg)
    check(len(fk) == n, "SceneFK has", len(fk))
    form = FORMS[choose(len(FORMS), "form")] if cs else "list"
    for vals in QS[1:]:
        q = dict(zip(cs, vals))
        fk.config = asconf(form, cs, vals, sg)
        c = fk.config
        expect([c[sg.config_id(x)] for x in cs], [q[x] for x in cs], "configuration of the kinematics")
        for a in names + [""]:
            key = [a, sg.frame_id(a)][len(a) % 2]
            pexpect(fk[key], *ref.abs(a, q), what="pose of %r" % a)
            for b in names:
                pexpect(fk[a, sg.frame_id(b)], *ref.rel(a, b, q), what="pose of %r in %r" % (b, a))


@space("names and ids")
def names_ids():
    sg, ref = arm(2)
    cs = ref.configs()
    n, m = sg.frame_count, sg.config_count
    nontrivial()
    fn = pick(["ensure_frame_id", "ensure_frame_id_actual", "ensure_frame_name", "ensure_config_id", "ensure_config_name",
               "frame_name", "config_name", "get_parent", "fk", "fk pair", "frame_id", "config_id"], "f")
    v = pick([0, 1, n - 1, n, n + 5, -1, -2, -3, m - 1, m, -100, 10 ** 6, "j0", "tool", "q0", "slide", "none", "", None, 1.5, [1]], "value")
    if v == 1.5 and fn.startswith("ensure"):
        raise Skip()      # rejected at its use
    what = "%s(%r)" % (fn, v)
    fk = SceneFK(sg)
    fk.config = [0.1] * m
    f = {"fk": lambda x: fk[x], "fk pair": lambda x: fk["j0", x]}.get(fn) or getattr(sg, fn)
    fnames = {sg.frame_name(i): i for i in range(n)}
    cnames = {sg.config_name(i): i for i in range(m)}
    isint = isinstance(v, int)
    if fn in ("frame_id", "config_id"):
        t = fnames if fn == "frame_id" else cnames
        if isinstance(v, str):
            want = t.get(v, (FRAME_ROOT if v == "" else FRAME_NONE) if fn == "frame_id" else CONFIG_NONE)
            check(f(v) == want, what, "is", f(v))
        else:
            raises(lambda: f(v), what)
    elif fn in ("ensure_frame_id", "ensure_frame_id_actual", "ensure_frame_name", "get_parent", "fk", "fk pair"):
        root = v == "" or (isint and v == FRAME_ROOT)
        good = v in fnames if isinstance(v, str) else (isint and 0 <= v < n)
        if root and fn not in ("ensure_frame_id_actual", "get_parent"):
            good = True
        if not good:
            # documented for reserved frames
            raises(lambda: f(v), what, exc=IndexError if root and fn == "ensure_frame_id_actual" else Exception)
        else:
            i = FRAME_ROOT if root else fnames[v] if isinstance(v, str) else v
            nm = "" if root else v if isinstance(v, str) else sg.frame_name(v)
            got = f(v)
            if fn in ("ensure_frame_id", "ensure_frame_id_actual"):
                check(got == i, what, "is", got)
            elif fn == "ensure_frame_name":
                check(got == nm, what, "is", got)
            elif fn == "get_parent":
                check(got == ref.f[nm][0], what, "is", got)
            elif fn == "fk":
                pexpect(got, *ref.abs(nm, {c: 0.1 for c in cs}), what=what)
            else:
                pexpect(got, *ref.rel("j0", nm, {c: 0.1 for c in cs}), what=what)
    elif fn == "frame_name":
        if isint and 0 <= v < n:
            check(fnames[f(v)] == v, what)
        elif isint and v == FRAME_ROOT:
            check(f(v) == "", what, "is", f(v))
        else:
            # "?" stands for no frame
            raises(lambda: f(v), what, ok=lambda g: g == "?")
    else:
        if isint and 0 <= v < m:
            want = v if fn == "ensure_config_id" else [c for c in cnames if cnames[c] == v][0]
        elif isinstance(v, str) and v in cnames:
            want = cnames[v] if fn == "ensure_config_id" else v
            if fn == "config_name":
                return raises(lambda: f(v), what)
        else:
            return raises(lambda: f(v), what, ok=lambda g: fn == "config_name" and g in ("NONE", "MULTI"))
        check(f(v) == want, what, "is", f(v))


@space("configurations")
def configurations():
    nj = pick([1, 2, 3], "joints")
    sg, ref = arm(nj)
    cs = ref.configs()
    m = len(cs)
    vals = pick(QS, "values")[:m]
    d = dict(zip(cs, vals))
    order = [sg.config_name(i) for i in range(m)]
    want = [d[c] for c in order]
    form = pick(FORMS, "form")
    op = choose(8, "op")
    nontrivial()
    arg = asconf(form, cs, vals, sg)
    what = "op %d of a %s" % (op, form)
    if op == 0:
        v = sg.config_vector(arg)
        expect([v[i] for i in range(m)], want, what)
    elif op == 1:
        out = pick([lambda: DVec(m), lambda: DVec(2 * m)[0:2 * m:2], lambda: DMat((2, m)).row_vec(0)], "destination")()
        v = sg.config_vector(arg, out)
        check(v is out, what + " is not the given vector")
        expect([v[i] for i in range(m)], want, what)
    elif op == 2:
        v = sg.copy_config(arg)
        check(v is not arg, what + " is no copy")
        expect([v[i] for i in range(m)], want, what)
        v[0] = 99.0
        if form != "dict":
            expect([arg[i] for i in range(m)], want, what + " changes its argument")
    elif op == 3:
        if form == "dict":
            raise Skip()
        got = sg.config_dict(arg)
        check(sorted(got) == cs, "keys are", sorted(got))
        expect([got[c] for c in cs], [d[c] for c in cs], what)
    elif op == 4:
        # a dictionary that names some of the variables only changes those
        part = {c: d[c] for c in cs[:choose(m + 1, "given")]}
        v = DVec([5.0] * m)
        sg.config_vector(part, v)
        expect([v[i] for i in range(m)], [part.get(c, 5.0) for c in order], "partial configuration")
        v = sg.config_vector(part)
        expect([v[i] for i in range(m)], [part.get(c, 0.0) for c in order], "partial configuration")
    elif op == 5:
        bad = pick([{"none": 1.0}, {0: 1.0}, {None: 1.0}, None, "abc", 1.5], "bad")
        raises(lambda: sg.config_vector(bad, DVec(m)), "configuration %r" % (bad,))
        raises(lambda: sg.copy_config(bad), "configuration %r" % (bad,))
    elif op == 6:
        bad = pick([[1.0] * (m + 1), [1.0] * (m - 1), DVec(m + 1), DVec(m - 1)], "bad")
        fk = SceneFK(sg)
        fk.config = arg

        def setit():
            fk.config = bad
        raises(setit, "configuration of the wrong size")
        raises(lambda: sg.config_vector(bad, DVec(m)), "configuration of the wrong size")
        raises(lambda: sg.config_vector(arg, DVec(m + 1)), "vector of the wrong size")
        c = fk.config
        expect([c[i] for i in range(m)], want, "configuration after a rejected one")
        pexpect(fk["tool"], *ref.abs("tool", d), what="pose after a rejected configuration")
    elif op == 7:
        fk = SceneFK(sg)
        fk.config = arg
        other = SceneFK(sg)
        other.config = [0.7] * m
        pexpect(fk["tool"], *ref.abs("tool", d), what="pose")
        if form in ("DVec", "view"):
            arg[0] = 77.0
            c = fk.config
            expect([c[i] for i in range(m)], want, "configuration after its source changed")
            pexpect(fk["tool"], *ref.abs("tool", d), what="pose after its source changed")


@space("sub scenes")
def sub_scenes():
    sg, ref = arm(pick([1, 2, 3], "joints"))
    cs = ref.configs()
    n, m = sg.frame_count, sg.config_count
    keys = [None, "", "j0", "tool", "slide", "none", 0, n, -1, -2, 1.5]
    root, tip = pick(keys, "root"), pick(keys[1:], "tip")
    what = "chain %r:%r" % (root, tip)

    def name(k):
        if k is None:
            return ""
        if isinstance(k, str):
            return k if k in ref.f or k == "" else None
        return "" if k == -1 else sg.frame_name(k) if isinstance(k, int) and 0 <= k < n else None
    a, b = name(root), name(tip)
    if a is None or b is None:
        return raises(lambda: sg[root:tip], what)
    p = ref.path(a, b)
    if p is None or not p:
        raise Skip()      # not a chain
    ssg = sg[root:tip]
    joints = [f for f in p if ref.f[f][3]]
    k = len(joints)
    nontrivial()
    check(isinstance(ssg, SubSceneGraph) and ssg.config_count == k, what, "has", ssg.config_count)
    check(sg.frame_name(ssg.end_effector_id) == b, what, "ends at", ssg.end_effector_id)
    names = [ref.f[f][3] for f in joints]
    allv = [10.0 + i for i in range(m)]
    op = choose(8, "op")
    form = pick(["DVec", "view", "list"], "form")

    def mk(v):
        return {"DVec": DVec, "view": colview, "list": list}[form](v)
    ids = [sg.config_id(c) for c in names]
    if op == 0:
        f = lambda: ssg.gather_config(mk(allv))
        if form == "list":
            raises(f, what, ok=lambda g: near([g[i] for i in range(k)], [allv[i] for i in ids]))
        else:
            g = f()
            check(len(g) == k, "gathered", len(g))
            expect([g[i] for i in range(k)], [allv[i] for i in ids], what + " gathered")
    elif op == 1:
        out = DVec([3.0] * (2 * k + 1))
        if k:
            g = ssg.gather_config(DVec(allv), out[1:2 * k + 1:2])
            expect([out[i] for i in range(2 * k + 1)], [3.0 if i % 2 == 0 else allv[ids[i // 2]] for i in range(2 * k + 1)], what + " gathered")
    elif op == 2:
        sub = [20.0 + i for i in range(k)]
        base = DVec(allv)
        f = lambda: ssg.scatter_config(mk(sub) if k else DVec(0), base)
        want = list(allv)
        for i, x in zip(ids, sub):
            want[i] = x
        if form == "list" and k:
            raises(f, what, ok=lambda g: g is base and near([g[i] for i in range(m)], want))
        else:
            check(f() is base, "scatter gives another vector")
            expect([base[i] for i in range(m)], want, what + " scattered")
    elif op == 3:
        g = ssg.scatter_config({c: 4.5 for c in names})
        expect([g[i] for i in range(m)], [4.5 if i in ids else 0.0 for i in range(m)], what + " scattered dictionary")
    elif op == 4:
        g = ssg.scatter_config(DVec([2.0] * k))
        expect([g[i] for i in range(m)], [2.0 if i in ids else 0.0 for i in range(m)], what + " scattered")
    elif op == 5:
        for v in (DVec(k + 1), DVec(k - 1) if k else DVec(k + 2)):
            raises(lambda: ssg.scatter_config(v), what + " scattering the wrong size")
            raises(lambda: ssg.scatter_config(v, DVec(m)), what + " scattering the wrong size")
            raises(lambda: ssg.gather_config(DVec(m), v), what + " gathering to the wrong size")
        raises(lambda: ssg.scatter_config(DVec(k), DVec(m + 1)), what + " scattering to the wrong size")
        raises(lambda: ssg.gather_config(DVec(m + 1)), what + " gathering the wrong size")
        raises(lambda: ssg.gather_config(DVec(m - 1)), what + " gathering the wrong size")
        raises(lambda: ssg.gather_config(None), what + " gathering nothing")
        if k:
            raises(lambda: ssg.scatter_config(None), what + " scattering nothing")
    elif op == 6:
        raises(lambda: sg["":"tool":1], "stepped chain")
        raises(lambda: sg["tool"], "item of a scene")
    elif op == 7:
        v = ssg.config_vector([1.0] * k)
        check(len(v) == k, "config_vector")
        v = DVec(k)
        check(ssg.config_vector([3.0] * k, v) is v, "config_vector gives another vector")
        expect([v[i] for i in range(k)], [3.0] * k, "config_vector")


@space("editing scenes")
def editing():
    sg, ref = arm(2, geom=bool(choose(2, "geometry")))
    n = sg.frame_count
    nsteps = 3 if THOROUGH else 2
    nontrivial()
    copies = []
    for s in range(nsteps):
        op = pick(["remove", "reparent", "add", "copy", "nothing"], "edit %d" % s)
        if op == "remove":
            leaf = pick([f for f in ref.f if not any(g[0] == f for g in ref.f.values())], "frame %d" % s)
            sg.remove_frame(leaf)
            del ref.f[leaf]
        elif op == "reparent":
            f = pick(sorted(ref.f), "frame %d" % s)
            ps = [p for p in sorted(ref.f) + [""] if ref.path(f, p) is None]
            p = pick(ps, "parent %d" % s)
            k = choose(2, "tf %d" % s)
            form = choose(3, "tf form %d" % s)
            tf = [mktf(k, 0), mktf(k, 1), mktf(k, 2)][form]
            sg.reparent(p, f, tf)
            o = ref.f[f]
            ref.f[f] = (p, o[1], TFS[k]) + o[3:]
        elif op == "add":
            addframe(sg, ref, pick(sorted(ref.f) + [""], "parent %d" % s), "new%d" % s, "p", 1, axis=(0, 1, 0), offset=0.5)
        elif op == "copy":
            sg.init()
            old, sg = sg, sg.copy()
            oldref, ref = ref, Ref()
            ref.f = dict(oldref.f)
            copies.append((old, oldref))
        sg.init()
    for g, r in copies + [(sg, ref)]:
        cs = r.configs()
        q = dict(zip(cs, [0.3, -0.9, 1.4, 0.2, 0.7]))
        check(sorted(g.frame_name(i) for i in range(g.frame_count)) == sorted(r.f), "frames are", [g.frame_name(i) for i in range(g.frame_count)])
        check(sorted(g.config_name(i) for i in range(g.config_count)) == cs, "variables are", [g.config_name(i) for i in range(g.config_count)], "expected", cs)
        fk = SceneFK(g)
        fk.config = q
        for nm in r.f:
            check(g.get_parent(nm) == r.f[nm][0], "parent of", nm)
            pexpect(fk[nm], *r.abs(nm, q), what="pose of " + nm)


@space("geometry options")
def geom_opts():
    given = pick(["none", "one", "two", "set later"], "given")
    keys = ["visual", "collision", "no_shadow", "alpha", "scale", "color", "specular"]
    vals = {"visual": [True, False, 1, 0], "collision": [True, False], "no_shadow": [True, False], "alpha": [0.25, 1.0],
            "scale": [2.5, 0.125], "color": [[0.1, 0.2, 0.3], (1.0, 0.0, 0.5)], "specular": [[0.4, 0.5, 0.6], (0.0, 1.0, 0.25)]}
    d = {}
    if given != "none":
        for i in range(2 if given == "two" else 1):
            k = pick(keys, "key %d" % i)
            d[k] = pick(vals[k], "value %d" % i)
    base = GeomOpt()
    o = GeomOpt.ensure(d or None) if given != "set later" else GeomOpt()
    if given == "set later":
        for k in d:
            setattr(o, k, d[k])
    nontrivial()
    check(GeomOpt.ensure(o) is o, "ensure copies options")
    for k in keys:
        got, dflt = getattr(o, k), getattr(base, k)
        if k in d:
            want = d[k]
            if k in ("visual", "collision", "no_shadow"):
                check(got is bool(want), k, "is", got)
            elif isinstance(want, (list, tuple)):
                expect(list(got), list(want), k)
            else:
                expect(got, want, k)
        else:
            check(got == dflt, k, "is", got, "by default", dflt)
            if k in ("visual", "collision", "no_shadow"):
                check(isinstance(got, bool), k, "is", got)
            elif k in ("alpha", "scale"):
                expect(got, 1.0, "default " + k)
    raises(lambda: GeomOpt({"none": 1}), "unknown option")
    raises(lambda: GeomOpt.ensure(pick([3, "a", [1]], "bad")), "options of something else")
    raises(lambda: GeomOpt({"alpha": "x"}), "alpha of a string")
    raises(lambda: GeomOpt({"color": [1.0]}), "color of one number")


@space("geometry")
def geometry():
    sg = SceneGraph()
    kind = choose(6, "kind")
    opt = pick([None, {"alpha": 0.5}, {"collision": True, "visual": True}], "options")
    mk = [lambda: Geom.box(opt, pick([[1.0, 2, 3], (1, 2, 3), Vec3([1, 2, 3])], "dimension")), lambda: Geom.sphere(opt, 0.5),
          lambda: Geom.cylinder(opt, 1.0, 0.5), lambda: Geom.cone(opt, 1, 0.5, 0.0), lambda: Geom.torus(opt, 6.28, 1.0, 0.1),
          lambda: Geom.grid(opt, pick([[1.0, 1.0], (2, 2)], "dimension"), [0.1, 0.1], 0.01)][kind]
    how = pick(["fixed", "revolute", "prismatic", "attach", "list", "tuple", "nested"], "how")
    g = mk()
    churn()
    nontrivial()
    if how == "fixed":
        sg.add_frame_fixed("", "a", geom=g)
    elif how == "revolute":
        sg.add_frame_revolute("", "a", geom=g)
    elif how == "prismatic":
        sg.add_frame_prismatic("", "a", geom=g, limits=(-1, 1))
    else:
        sg.add_frame_fixed("", "a")
        sg.attach_geom("a", {"attach": g, "list": [g, mk()], "tuple": (g, mk()), "nested": [[g], (mk(), [mk()])]}[how])
    sg.init()
    want = {"list": 2, "tuple": 2, "nested": 3}.get(how, 1)
    # count through the library
    CB = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p)
    seen = []
    cb = CB(lambda cx, f, p: seen.append(f))
    libamino.aa_rx_sg_map_geom.argtypes = [ctypes.c_void_p, CB, ctypes.c_void_p]
    libamino.aa_rx_sg_map_geom(ctypes.cast(sg._ptr, ctypes.c_void_p), cb, None)
    check(seen == [sg.frame_id("a")] * want, "shapes are attached to", seen)
    bad = pick(["x", 3, [None, 4], {}], "bad")
    raises(lambda: sg.attach_geom("a", bad), "attaching %r" % (bad,))


@space("differential kinematics")
def diffkin():
    """a gantry of three sliders and three wrist joints: unit Jacobian at 0"""
    sg, ref = SceneGraph(), Ref()
    p = ""
    for i, (t, ax) in enumerate([("p", (1, 0, 0)), ("p", (0, 1, 0)), ("p", (0, 0, 1)), ("r", (1, 0, 0)), ("r", (0, 1, 0)), ("r", (0, 0, 1))]):
        addframe(sg, ref, p, "g%d" % i, t, 0, axis=ax)
        p = "g%d" % i
    sg.init()
    ssg = sg["":"g5"]
    fk = SceneFK(sg)
    q = pick([[0.0] * 6, [0.5, -1.0, 0.25, 0.2, -0.3, 0.4]], "configuration")
    cs = ["g%d" % i for i in range(6)]
    fk.config = dict(zip(cs, q))
    dk = SceneDK(ssg, fk)
    mode = pick(["vel", "pos", "both", "none"], "mode")
    v = [0.0] * 6
    if mode == "none":
        return raises(lambda: dk.solve_vel(), "solve without a reference")
    nontrivial()
    if mode in ("vel", "both"):
        v = pick([[0.1, 0.2, -0.3, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.3, -0.1, 0.2], [0.1, 0.1, 0.1, 0.2, 0.2, 0.2]], "velocity")
        kind = pick(["DVec", "TfVel", "list"], "velocity kind")
        r = DVec(v)
        if kind == "TfVel":
            r = TfVel()
            r.from_dvec(DVec(v))
        elif kind == "list":
            r = v
        dk.ref_tf_vel = r
    if mode in ("pos", "both"):
        # a displacement of the present pose by dx, in the root frame
        d = pick([[0.2, 0.0, 0.0], [0.0, -0.1, 0.3]], "displacement")
        E = fk["g5"]
        E.translation = add(V3(E.trans), d)
        form = pick([QuatTrans, TfMat, DualQuat], "pose kind")
        dk.ref_tf = form(E)
        pexpect(dk.ref_tf, *pval(E), what="reference")
    dq = dk.solve_vel()
    check(dq is not None and len(dq) == 6, "solve_vel gives", dq)
    out = DVec(6)
    check(dk.solve_vel(out) is out and near([out[i] for i in range(6)], [dq[i] for i in range(6)]), "solve_vel into a vector differs")
    # the velocity of the end effector by central differences of the reference kinematics
    h = 1e-5
    dd = {c: dq[ssg_i] for ssg_i, c in enumerate(sorted(cs))} if False else {sg.config_name(i): ssg_val for i, ssg_val in enumerate([ssg.scatter_config(dq)[i] for i in range(6)])}
    A = ref.abs("g5", {c: q[i] + h * dd[c] for i, c in enumerate(cs)})
    B = ref.abs("g5", {c: q[i] - h * dd[c] for i, c in enumerate(cs)})
    lin = [(x - y) / (2 * h) for x, y in zip(A[1], B[1])]
    D = mm(A[0], tr(B[0]))
    ang = [(D[2][1] - D[1][2]) / (4 * h), (D[0][2] - D[2][0]) / (4 * h), (D[1][0] - D[0][1]) / (4 * h)]
    if mode == "vel":
        expect(lin + ang, v, "velocity of the end effector", 1e-4)
    elif mode == "pos":
        s = sum(x * y for x, y in zip(lin, d))
        k = s / sum(x * x for x in d)
        check(k > 0.1, "moves by", lin, "for the displacement", d)
        expect(lin, [k * x for x in d], "direction of the motion", 1e-4)
        expect(ang, [0.0] * 3, "rotation during a translation", 1e-4)
    else:
        dk2 = SceneDK(ssg, fk)
        dk2.ref_tf = dk.ref_tf
        o = dk2.solve_vel()
        dk3 = SceneDK(ssg, fk)
        dk3.ref_tf_vel = r
        w = dk3.solve_vel()
        expect([dq[i] for i in range(6)], [o[i] + w[i] for i in range(6)], "sum of both references", 1e-9)
    # again: nothing accumulates
    dq2 = dk.solve_vel()
    expect([dq2[i] for i in range(6)], [dq[i] for i in range(6)], "solved again", 1e-12)
    raises(lambda: dk.solve_vel(DVec(pick([5, 7], "size"))), "velocity of the wrong size")


@space("inverse kinematics")
def invkin():
    sg, ref = SceneGraph(), Ref()
    p = ""
    for i, (t, ax) in enumerate([("p", (1, 0, 0)), ("p", (0, 1, 0)), ("r", (0, 0, 1))]):
        addframe(sg, ref, p, "g%d" % i, t, 0, axis=ax)
        p = "g%d" % i
    addframe(sg, ref, p, "ee", "f", 1)
    addframe(sg, ref, "", "other", "r", 0)
    sg.init()
    libamino.aa_rx_sg_set_limit_pos(sg._ptr, b"g0", -2.0, 2.0)
    libamino.aa_rx_sg_set_limit_pos(sg._ptr, b"g1", -2.0, 2.0)
    libamino.aa_rx_sg_set_limit_pos(sg._ptr, b"g2", -2.0, 2.0)
    ssg = sg["":"ee"]
    ik = SceneIK(ssg)
    nontrivial()
    raises(lambda: ik.solve(), "solve without a reference")
    g = pick([[0.5, -0.5, 0.3], [1.0, 1.0, -0.7], [0.0, 0.0, 0.0]], "goal")
    cs = ["g0", "g1", "g2"]
    E = ref.abs("ee", dict(zip(cs, g)))
    form = pick([QuatTrans, TfMat, DualQuat, tuple], "pose kind")
    h, v = Quat(q_of(E[0])), Vec3(E[1])
    ik.ref_tf = (h, v) if form is tuple else form((h, v))
    pexpect(ik.ref_tf, *E, what="reference")
    seed = pick(["center", "zeros", "near", "dvec", "rand"], "seed")
    if seed == "center":
        ik.set_seed_center()
    elif seed == "zeros":
        ik.set_seed([0.0] * 3)
    elif seed == "near":
        ik.set_seed(tuple(x + 0.1 for x in g))
    elif seed == "dvec":
        ik.set_seed(DVec(6)[0:6:2])
    else:
        ik.set_seed_rand()
    t = pick([0.0, 1.0], "restart time")
    ik.restart_time = t
    expect(ik.restart_time, t, "restart time")
    ik.set_tol_angle(1e-3)
    ik.set_tol_trans(1e-3)
    if choose(2, "objective"):
        ik.set_obj(libamino.aa_rx_ik_opt_err_dqln)
    q = ik.solve()
    if seed != "rand" or t:
        check(q is not None, "no solution for a reachable goal")
    if q is not None:
        check(len(q) == 3, "solution has", len(q))
        allq = ssg.scatter_config(q)
        d = {sg.config_name(i): allq[i] for i in range(4)}
        A = ref.abs("ee", d)
        check(near(A[1], E[1], 5e-3) and near(A[0], E[0], 5e-3), "solution", d, "misses the goal: ", A[1], "for", E[1])
    for bad in ([0.0] * 2, [0.0] * 4, DVec(2), DVec(4), None, "abc"):
        raises(lambda: ik.set_seed(bad), "seed %r" % (bad,))
    raises(lambda: setattr(ik, "ref_tf", pick(["a", 3, [1.0] * 6], "bad")), "bad reference")


def boxes(n=3):
    """n boxes of side one that slide along x"""
    sg, ref = SceneGraph(), Ref()
    for i in range(n):
        sg.add_frame_prismatic("", "b%d" % i, config_name="x%d" % i, axis=(1, 0, 0),
                               geom=Geom.box({"collision": True}, [1.0, 1.0, 1.0]))
    sg.init()
    return sg


@space("collision sets")
def clsets():
    n = 3
    sg = boxes(n)
    SceneCollision(sg)
    s, o = SceneCollisionSet(sg), SceneCollisionSet(sg)
    model, omodel = {}, {}
    names = ["b%d" % i for i in range(n)]
    pairs = [(0, 1), (0, 2), (1, 2), (2, 1), (0, 0)]
    for k in range(3 if not THOROUGH else 4):
        op = pick(["set", "clear", "fill", "set other", "unset", "ids"], "step %d" % k)
        if op in ("set", "unset", "set other", "ids"):
            i, j = pick(pairs if op == "set" else pairs[2:4], "pair %d" % k)
            v = op != "unset"
            t, mdl = (o, omodel) if op == "set other" else (s, model)
            if op == "ids":
                t[sg.frame_id(names[i]), sg.frame_id(names[j])] = 1
            else:
                t[names[i], names[j]] = v
            mdl[frozenset((i, j))] = v
        elif op == "clear":
            s.clear()
            model.clear()
        else:
            s.fill(o)
            for key, v in omodel.items():
                if v:
                    model[key] = True
        for i in range(n):
            for j in range(n):
                for t, mdl, w in ((s, model, "set"), (o, omodel, "other set")):
                    got = t[names[i], sg.frame_id(names[j])]
                    want = mdl.get(frozenset((i, j)), False)
                    check(got is want, w, (i, j), "is", got, "expected", want)
    nontrivial()
    bad = pick([("b0", "none"), ("b0", 3), ("b0", -1), ("", "b0"), ("b0", -2), ("b0", None), "b0", (0, 1, 2), 1], "bad")
    raises(lambda: s[bad], "pair %r" % (bad,))
    raises(lambda: s.__setitem__(bad, True), "pair %r" % (bad,))


@space("collision checks")
def clchecks():
    n = 3
    sg = boxes(n)
    x = [0.0, pick([0.5, 1.25, 3.0], "x1"), pick([-0.75, 1.625, 6.0], "x2")]
    fk = SceneFK(sg)
    fk.config = {"x%d" % i: x[i] for i in range(n)}
    cl = SceneCollision(sg)
    hit = {(i, j) for i in range(n) for j in range(i + 1, n) if abs(x[i] - x[j]) < 1}
    how = pick(["nothing", "allow", "allow set", "allow config", "scene"], "allowed")
    allowed = set()
    if how == "allow":
        i, j = pick([(0, 1), (2, 0), (1, 2)], "pair")
        cl.allow("b%d" % i, sg.frame_id("b%d" % j))
        allowed = {(min(i, j), max(i, j))}
    elif how == "allow set":
        st = SceneCollisionSet(sg)
        st["b0", "b1"] = True
        st["b2", "b1"] = True
        cl.allow_set(st)
        allowed = {(0, 1), (1, 2)}
    elif how == "allow config":
        y = [0.0, pick([0.5, 5.0], "y1"), 0.25]
        cl.allow_config({"x%d" % i: y[i] for i in range(n)})
        allowed = {(i, j) for i in range(n) for j in range(i + 1, n) if abs(y[i] - y[j]) < 1}
    elif how == "scene":
        i, j = pick([(0, 1), (2, 0)], "pair")
        sg.allow_collision("b%d" % i, sg.frame_id("b%d" % j))
        cl = SceneCollision(sg)
        allowed = {(min(i, j), max(i, j))}
    nontrivial()
    want = hit - allowed
    got = cl.check(fk)
    check(got is bool(want), "check is", got, "for", x, "allowed", allowed)
    st = cl.collision_set()
    st["b0", "b1"] = True       # left from before
    st["b0", "b2"] = True
    st["b1", "b2"] = True
    got = cl.check(fk, st)
    check(got is bool(want), "check is", got)
    for i in range(n):
        for j in range(i + 1, n):
            check(st["b%d" % i, "b%d" % j] is ((i, j) in want), "pair", (i, j), "is reported as", st["b%d" % i, "b%d" % j])
    dist = cl.collision_dist()
    dist.check(fk)
    for i in range(n):
        for j in range(n):
            if i == j or (min(i, j), max(i, j)) in allowed:
                continue
            d = dist.dist["b%d" % i, "b%d" % j]
            dd, p0, p1 = dist.points["b%d" % i, sg.frame_id("b%d" % j)]
            w = abs(x[i] - x[j]) - 1
            check(dd == d, "dist and points differ", dd, d)
            if w > 0.1:
                expect(d, w, "distance of %d and %d" % (i, j), 1e-3)
                s = 1 if x[j] > x[i] else -1
                # a point of each of the boxes, the distance apart
                check(abs(abs(p0.x - p1.x) - w) < 2e-3, "nearest points are", V3(p0), V3(p1))
                check(abs(p0.x - x[i]) < 0.5 + 1e-3 and abs(p1.x - x[j]) < 0.5 + 1e-3, "nearest points", V3(p0), V3(p1), "are not on boxes", i, j)
            elif w < -0.1:
                check(d <= 1e-3, "distance of intersecting boxes is", d)
    bad = pick([("b0", "none"), ("b0", 3), ("", "b0"), ("b0", None), "b0", 1], "bad")
    raises(lambda: dist.dist[bad], "pair %r" % (bad,))
    raises(lambda: dist.points[bad], "pair %r" % (bad,))
    if isinstance(bad, tuple):
        raises(lambda: cl.allow(*bad), "pair %r" % (bad,))
        if bad[0] != "":
            raises(lambda: sg.allow_collision(*bad), "pair %r" % (bad,))


@space("motion planning")
def planning():
    sg, ref = SceneGraph(), Ref()
    box = lambda: Geom.box({"collision": True}, [0.2, 0.2, 0.2])
    sg.add_frame_prismatic("", "x", axis=(1, 0, 0), limits=(-2, 2))
    sg.add_frame_prismatic("x", "y", axis=(0, 1, 0), limits=(-2, 2), geom=box())
    extra = choose(2, "another joint") == 1
    if extra:
        sg.add_frame_revolute("", "a", axis=(0, 0, 1))
    wall = choose(2, "wall")
    if wall:
        sg.add_frame_fixed("", "wall", geom=Geom.box({"collision": True}, [0.2, 1.0, 1.0]))
    sg.init()
    libamino.aa_rx_sg_set_limit_vel(sg._ptr, b"x", ctypes.c_double(-1), ctypes.c_double(1)) if False else None
    SceneCollision(sg)
    ssg = sg["":"y"]
    start = pick([[-1.0, 0.0], [0.0, 1.5]], "start")
    goal = pick([[1.0, 0.0], [1.0, -1.5], [0.0, 0.0], [5.0, 0.0]], "goal")
    mp = MotionPlan(ssg)
    f = pick([list, tuple, DVec], "kind")
    nontrivial()

    def whole(q):
        d = {"x": q[0], "y": q[1], "a": 0.3}
        return [d[sg.config_name(i)] for i in range(sg.config_count)]

    def sub(p):
        # configurations of the whole scene
        check(all(len(q) == sg.config_count for q in p), "plan", p)
        d = [sg.config_dict(q) for q in p]
        for q in d:
            check(q.get("a", 0.3) == 0.3, "plan moves another joint", q)
        return [[q["x"], q["y"]] for q in d]
    p = mp.motion_plan(f(whole(start)), f(goal), 10.0)

    def free(q):
        return not (wall and abs(q[0]) < 0.2 and abs(q[1]) < 0.6)
    if abs(goal[0]) > 2 or not free(goal):
        return check(p is None, "plan to an invalid goal:", p)
    check(p is not None, "no plan")
    p = sub(p)
    expect(p[0], start, "start of the plan")
    expect(p[-1], goal, "end of the plan", 1e-3)
    for a, b in zip(p, p[1:]):
        for k in range(101):
            q = [u + (v - u) * k / 100 for u, v in zip(a, b)]
            # up to one step of the planner's resolution
            check(not (wall and abs(q[0]) < 0.14 and abs(q[1]) < 0.54), "plan", p, "collides at", q)
    g2 = [-1.0, 1.0]
    p = mp.motion_plan(f(whole(goal)), f(g2), 10.0)
    check(p is not None, "no second plan")
    p = sub(p)
    expect(p[0], goal, "start of the second plan")
    expect(p[-1], g2, "end of the second plan", 1e-3)
    raises(lambda: mp.motion_plan(whole(start)[1:], [1.0, 1.0], 1.0), "plan of the wrong size", ok=lambda v: v is None)
    raises(lambda: mp.motion_plan(whole(start), [1.0, 1.0, 1.0], 1.0), "plan of the wrong size", ok=lambda v: v is None)


@space("objects outlive what they were made from")
def lifetimes2():
    k = choose(9, "kind")
    cs = {"q0": 0.3, "q1": -0.4, "slide": 0.2}
    nontrivial()
    if k == 0:
        fk = SceneFK(arm(2)[0])
        churn()
        fk.config = cs
        churn()
        pexpect(fk["tool"], *arm(2)[1].abs("tool", cs), what="pose")
    elif k == 1:
        ssg = arm(2)[0]["":"tool"]
        churn()
        g = ssg.gather_config(DVec([1.0, 2.0, 3.0]))
        check(len(g) == 2 and ssg.config_count == 2, "sub scene")
    elif k == 2:
        sg, ref = arm(2)
        dk = SceneDK(sg["":"tool"], SceneFK(sg))
        del sg
        churn()
        dk.ref_tf_vel = DVec(6)
        check(dk.solve_vel() is not None, "no velocity")
    elif k == 3:
        sg, ref = arm(2)
        ik = SceneIK(sg["":"tool"])
        del sg
        churn()
        ik.set_seed([0.1, 0.1])
        ik.ref_tf = (Quat(q_of(ref.abs("tool", cs)[0])), ref.abs("tool", cs)[1])
        ik.restart_time = 0
        ik.solve()
    elif k == 4:
        cl = SceneCollision(boxes())
        churn()
        fk = SceneFK(cl.scenegraph)
        fk.config = [0.0, 3.0, 6.0]
        check(cl.check(fk) is False, "collision")
        d = cl.collision_dist()
        s = cl.collision_set()
        del cl
        churn()
        d.check(fk)
        expect(d.dist["b0", "b1"], 2.0, "distance", 1e-3)
        dd = d.dist
        pts = d.points
        del d
        churn()
        expect(dd["b0", "b1"], 2.0, "distance", 1e-3)
        expect(pts["b0", "b1"][0], 2.0, "distance", 1e-3)
        s["b0", "b1"] = True
        check(s["b1", "b0"], "set")
    elif k == 5:
        sg = SceneGraph()
        sg.add_frame_prismatic("", "x", axis=(1, 0, 0), limits=(-2, 2))
        sg.add_frame_prismatic("x", "y", axis=(0, 1, 0), limits=(-2, 2), geom=Geom.box({"collision": True}, [0.2, 0.2, 0.2]))
        sg.init()
        SceneCollision(sg)
        mp = MotionPlan(sg["":"y"])
        del sg
        churn()
        p = mp.motion_plan([0.0, 0.0], [1.0, 1.0], 5.0)
        check(p is not None and near(p[-1], [1.0, 1.0], 1e-3), "plan", p)
        del mp
        churn()
    elif k == 6:
        sg, ref = arm(2)
        c = sg.copy()
        del sg
        churn()
        fk = SceneFK(c)
        fk.config = cs
        pexpect(fk["tool"], *ref.abs("tool", cs), what="pose")
    elif k == 7:
        sg = SceneGraph()
        g = Geom.sphere({}, 0.3)
        sg.add_frame_fixed("", "a", geom=g)
        sg.init()
        del sg
        churn()
        sg = SceneGraph()
        sg.add_frame_fixed("", "a", geom=Geom.sphere(None, 1))
        sg.init()
        del g
        churn()
        check(sg.frame_count == 1, "frames")
    elif k == 8:
        fk = SceneFK(arm(2)[0])
        fk.config = cs
        q = fk.config
        del fk
        churn()
        check(sorted(round(q[i], 6) for i in range(3)) == [-0.4, 0.2, 0.3], "configuration")


@space("loading")
def loading():
    sg = SceneGraph()
    f, n = pick(["/nonexistent.so", "", "libamino.so"], "file"), pick(["nothing", ""], "scene")
    raises(lambda: sg.load(f, n), "loading %r from %r" % (n, f))
    sg.init()
    check(sg.frame_count == 0, "frames")


class Rec(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in "create destroy run async_ stop lock unlock w h".split()] + [
        ("title", ctypes.c_char * 64), ("win", ctypes.c_void_p), ("sg", ctypes.c_void_p), ("last", ctypes.c_void_p),
        ("n", ctypes.c_size_t), ("q", ctypes.c_double * 32), ("cfg", ctypes.c_int), ("running", ctypes.c_int)]


@space("windows")
def windows():
    rec = Rec.in_dll(LIBAMINOGL, "amino_gl_rec")
    ctypes.memset(ctypes.addressof(rec), 0, ctypes.sizeof(rec))
    sg, ref = arm(2)
    start, bg = pick([True, False], "start"), pick([True, False], "background")
    kw = {}
    w, h = pick([(None, None), (320, 200)], "size")
    if w:
        kw.update(width=w, height=h)
    given = pick(["none", "scene", "both"], "given")
    cs = {"q0": 0.3, "q1": -0.4, "slide": 0.2}
    want = None
    if given != "none":
        kw["scenegraph"] = sg
    if given == "both":
        form = pick(["list", "DVec", "dict"], "form")
        kw["config"] = asconf(form, sorted(cs), [cs[c] for c in sorted(cs)], sg)
    win = SceneWin(title=pick(["Title", b"Title"], "title"), start=start, background=bg, **kw)
    nontrivial()

    def q():
        return {sg.config_name(i): rec.q[i] for i in range(rec.n)}
    check(rec.create == 1 and (rec.w, rec.h) == (w or 800, h or 600) and rec.title == b"Title", "window", rec.w, rec.h, rec.title)
    check((rec.run, rec.async_) == ((0, 1) if bg else (1, 0)) if start else (rec.run, rec.async_) == (0, 0), "started", rec.run, rec.async_)
    check((rec.sg == ctypes.cast(sg._ptr, ctypes.c_void_p).value) == (given != "none"), "scene is not set")
    if given == "both":
        expect([q()[c] for c in sorted(cs)], [cs[c] for c in sorted(cs)], "configuration")
        check(rec.last == rec.win, "window")
    if not start:
        win.start(bg)
        check((rec.run, rec.async_) == ((0, 1) if bg else (1, 0)), "started", rec.run, rec.async_)
    check(win.is_runnining() is True, "is_running")
    if given == "none":
        raises(lambda: setattr(win, "config", [0.0] * 3), "configuration without a scene")
        win.scenegraph = sg
        check(rec.sg == ctypes.cast(sg._ptr, ctypes.c_void_p).value, "scene is not set")
    check(win.scenegraph is sg, "scene")
    op = choose(4, "op")
    v = {"q0": 1.0, "q1": 2.0, "slide": -3.0}
    if op == 0:
        win.config = v
    elif op == 1:
        fk = SceneFK(sg)
        fk.config = v
        win.fk = fk
    elif op == 2:
        win.config = asconf("view", sorted(v), [v[c] for c in sorted(v)], sg)
    else:
        bad = pick([[1.0] * 2, [1.0] * 4, DVec(4)], "bad")
        win.config = v
        raises(lambda: setattr(win, "config", bad), "configuration of the wrong size")
    expect([q()[c] for c in sorted(v)], [v[c] for c in sorted(v)], "displayed configuration")
    c = win.config
    expect([c[sg.config_id(x)] for x in sorted(v)], [v[x] for x in sorted(v)], "configuration of the window")
    c[0] = 55.0
    c = win.config
    expect([c[sg.config_id(x)] for x in sorted(v)], [v[x] for x in sorted(v)], "configuration of the window")
    pexpect(win.fk["tool"], *ref.abs("tool", v), what="pose in the window")
    win.lock()
    win.unlock()
    check((rec.lock, rec.unlock) == (1, 1), "locks")
    win.stop()
    check(rec.stop == 1 and win.is_runnining() is False, "stop")
    # the window keeps its scene alive
    del sg
    churn()
    win.config = [0.0] * 3
    check(rec.destroy == 0, "destroyed too early")
    del win
    churn()
    check(rec.destroy == 1, "not destroyed")
