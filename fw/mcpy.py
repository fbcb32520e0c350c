"""Stateless model checking of Python code: a harness is a set of spaces, each a
function that makes its choices through choose()/pick(); every combination of
choices is executed once (depth first, by re-execution), split over processes.

Command line as for the compiled harnesses (see mc.cpp): --json F --dir D
[--limit S] [--known k,..] or --replay F.  The choices of the execution under
way are kept in a shared file, so that an execution that kills the process (a
crash or an abort of the library, a sanitizer report) is reported as well.
"""
import json, mmap, os, signal, struct, sys, time, traceback, zlib

SPACES = []
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SLOTS = 200


class Skip(Exception):
    pass


class Violation(Exception):
    pass


class Known(Exception):
    pass


def space(name):
    def deco(fn):
        SPACES.append((name, fn))
        return fn
    return deco


class Run:
    def __init__(self):
        self.trace = []      # [choice, count, label]
        self.prefix = []
        self.verbose = False
        self.steps = 0
        self.choices = 0
        self.split = None
        self.seen = set()
        self.known = set()
        self.hit = {}
        self.nontrivial = 0
        self.shm = None
        self.sp = 0
        self.notes = []


R = Run()


def choose(n, label=""):
    if n <= 0:
        raise Skip()
    i = len(R.trace)
    c = R.prefix[i] if i < len(R.prefix) else 0
    if c >= n:
        raise RuntimeError("choice %d of %d: nondeterministic harness" % (c, n))
    R.trace.append((c, n, label))
    R.choices += 1
    if R.shm is not None and i < SLOTS:
        struct.pack_into("i", R.shm, 8 + 4 * i, c)
        struct.pack_into("i", R.shm, 4, i + 1)
    if R.split is not None and i == R.split[2] - 1:
        w, W, d = R.split
        h = zlib.crc32(repr([t[0] for t in R.trace[:d]]).encode())
        if h % W != w:
            raise Skip()
    return c


def pick(items, label=""):
    items = list(items)
    return items[choose(len(items), label)]


def note(text):
    if R.verbose:
        print("   ", text)
    R.notes.append(text)


def step(n=1):
    R.steps += n


def observe(x):
    if len(R.seen) < 2000000:
        R.seen.add(hash(x))


def nontrivial():
    R.nontrivial += 1


def check(cond, *msg):
    R.steps += 1
    if not cond:
        raise Violation(" ".join(m if isinstance(m, str) else repr(m) for m in msg))


def known(key, msg):
    """a listed finding: recorded, and the execution ends; otherwise a violation"""
    if key in R.known:
        R.hit[key] = msg
        raise Known()
    raise Violation(msg)


def one(fn, prefix):
    """one execution; returns None or a violation text"""
    R.prefix = prefix
    R.trace = []
    R.notes = []
    if R.shm is not None:
        struct.pack_into("i", R.shm, 4, 0)
    try:
        fn()
        return None, True
    except Skip:
        return None, False
    except Known:
        return None, True
    except Violation as e:
        return str(e), True
    except RuntimeError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, where), True


def advance():
    t = R.trace
    while t and t[-1][0] + 1 >= t[-1][1]:
        t.pop()
    if not t:
        return None
    return [x[0] for x in t[:-1]] + [t[-1][0] + 1]


def explore(si, w, W, deadline, out):
    name, fn = SPACES[si]
    ex = 0
    prefix = []
    s0 = R.steps
    samples = []
    d = getattr(fn, "split", 3)
    while True:
        R.split = (w, W, d) if W > 1 else None
        v, counted = one(fn, prefix)
        # an execution shorter than the split depth belongs to worker 0
        if counted and W > 1 and len(R.trace) < d and w != 0:
            counted, v = False, None
        if counted:
            ex += 1
            if ex % 997 == 1 and len(samples) < 2:
                samples.append(name + ": " + " ".join("%s=%d" % (t[2], t[0]) for t in R.trace))
        if v is not None:
            out["violation"] = "[%s] %s" % (name, v)
            out["trace"] = list(R.trace)
            out["space"] = name
            out["notes"] = list(R.notes)
            break
        if deadline and time.time() > deadline:
            out["timeout"] = True
            break
        prefix = advance()
        if prefix is None:
            break
    out["spaces"].setdefault(name, [0, 0])
    out["spaces"][name][0] += ex
    out["spaces"][name][1] += R.steps - s0
    out["samples"] += samples


def write_replay(path, prop, name, trace, msg):
    with open(path, "w") as f:
        f.write("property %s\nspace %s\n" % (prop, name))
        f.write("choices %s\n" % " ".join(str(t[0]) for t in trace))
        for t in trace:
            if len(t) > 2:
                f.write("# %s = %d of %d\n" % (t[2], t[0], t[1]))
        f.write("message %s\n" % msg.replace("\n", "\n#"))


def replay(path):
    name, ch = None, []
    for l in open(path):
        if l.startswith("space "):
            name = l[6:].strip()
        if l.startswith("choices "):
            ch = [int(x) for x in l.split()[1:]]
    R.verbose = True
    for n, fn in SPACES:
        if n == name:
            v, _ = one(fn, ch)
            for t in R.trace:
                print("  choice %s = %d of %d" % (t[2], t[0], t[1]))
            print("VIOLATES: " + v if v else "holds")
            return 1 if v else 0
    print("no such space", name)
    return 2


def main(prop):
    a = sys.argv[1:]
    if "--replay" in a:
        sys.exit(replay(a[a.index("--replay") + 1]))

    def opt(n, dflt=None):
        return a[a.index(n) + 1] if n in a else dflt
    js, d = opt("--json"), opt("--dir", "/tmp")
    limit = float(opt("--limit", "0"))
    R.known = set((opt("--known", "") or "").split(",")) - {""}
    only = os.environ.get("MC_SPACE")
    W = int(os.environ.get("MC_WORKERS", "8"))
    deadline = time.time() + limit if limit else None
    tot = {"rc": 0, "violation": "", "replay": "", "executions": 0, "states": 0, "steps": 0,
           "nontrivial": 0, "timeout": False, "samples": [], "spaces": {}, "choices": 0,
           "workers": W, "known": [], "table_full": False}
    sys.stdout.flush()
    pids = {}
    for w in range(W):
        shmf = os.path.join(d, "shm%d" % w)
        with open(shmf, "wb") as f:
            f.write(b"\0" * (8 + 4 * SLOTS))
        errf = os.path.join(d, "err%d" % w)
        pid = os.fork()
        if pid == 0:
            try:
                fd = os.open(errf, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
                os.dup2(fd, 2)
                os.dup2(fd, 1)
                f = open(shmf, "r+b")
                R.shm = mmap.mmap(f.fileno(), 0)
                out = {"spaces": {}, "samples": [], "timeout": False}
                for si, (n, fn) in enumerate(SPACES):
                    if only and n != only:
                        continue
                    struct.pack_into("i", R.shm, 0, si)
                    explore(si, w, W, deadline, out)
                    if "violation" in out:
                        break
                out.update(steps=R.steps, choices=R.choices, nontrivial=R.nontrivial, known=R.hit,
                           seen=list(R.seen)[:2000000])
                with open(os.path.join(d, "out%d" % w), "w") as f:
                    json.dump(out, f)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(99)
            os._exit(0)
        pids[pid] = w
    states = set()
    first = None
    broken = None
    while pids:
        pid, st = os.wait()
        w = pids.pop(pid)
        of = os.path.join(d, "out%d" % w)
        err = open(os.path.join(d, "err%d" % w), errors="replace").read()
        if st == 0 and os.path.exists(of):
            o = json.load(open(of))
            os.unlink(of)
            states.update(o["seen"])
            for k in ("steps", "choices", "nontrivial"):
                tot[k] += o[k]
            tot["timeout"] |= o["timeout"]
            tot["samples"] += o["samples"][:1]
            for n, (e, s) in o["spaces"].items():
                x = tot["spaces"].setdefault(n, {"executions": 0, "steps": 0})
                x["executions"] += e
                x["steps"] += s
                tot["executions"] += e
            for k, v in o["known"].items():
                if not any(x["key"] == k for x in tot["known"]):
                    tot["known"].append({"key": k, "what": v})
            if "violation" in o and first is None:
                first = (o["violation"], o["space"], o["trace"])
        elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99:
            broken = err[-3000:]
        elif first is None:
            raw = open(os.path.join(d, "shm%d" % w), "rb").read()
            si, n = struct.unpack_from("ii", raw, 0)
            ch = struct.unpack_from("%di" % min(n, SLOTS), raw, 8)
            how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)
            tail = [l for l in err.splitlines() if l.strip()]
            lead = [i for i, l in enumerate(tail) if "ERROR: AddressSanitizer" in l]
            tail = tail[lead[0]:lead[0] + 12] if lead else tail[-12:]
            first = ("[%s] the process ended with %s\n%s" % (SPACES[si][0], how, "\n".join(tail)), SPACES[si][0], [(c,) for c in ch])
    if broken:
        sys.stdout.write(broken + "\n")
        sys.exit(2)
    tot["states"] = len(states)
    tot["samples"] = tot["samples"][:6]
    if first:
        tot["rc"] = 1
        tot["violation"] = first[0]
        tot["replay"] = os.path.join(d, "replay")
        write_replay(tot["replay"], prop, first[1], first[2], first[0])
    with open(js, "w") as f:
        json.dump(tot, f)
    sys.exit(tot["rc"])
