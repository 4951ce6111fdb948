"""Runs the repository's post-processing readers (Python 2 sources) on files of the stand-in HDF5 format.

argv[1] is the post_processing directory. Requests arrive on stdin, one per line:
    state FILE | collisions FILE | print_meshes FILE | print_collisions FILE     [drop=MEMBER]
The answer is a number of lines followed by a line END. Values are printed with 17 digits.
"""
import ast, io, os, struct, sys, types
import numpy

DIR = sys.argv[1]


# ---- the two constructs of these sources whose meaning changed between Python 2 and 3: print and division ----
class Division(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("py2_div__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            t = node.target
            load = ast.parse(ast.unparse(t), mode="eval").body
            return ast.copy_location(ast.Assign([t], ast.Call(ast.Name("py2_div__", ast.Load()), [load, node.value], [])), node)
        return node


def py2_div(a, b):
    whole = (int, numpy.integer)
    return a // b if isinstance(a, whole) and isinstance(b, whole) else a / b


def py2_print(text):
    out = []
    for line in text.split("\n"):
        body = line.lstrip()
        if body.startswith("print ") and not body.startswith("print ("):
            args = body[6:].rstrip()
            end = ""
            if args.endswith(","):
                args, end = args[:-1], ", end=' '"
            line = line[:len(line) - len(body)] + "print(" + args + end + ")"
        out.append(line)
    return "\n".join(out)


def load(name):
    path = os.path.join(DIR, name + ".py")
    tree = ast.fix_missing_locations(Division().visit(ast.parse(py2_print(open(path).read()), path)))
    return compile(tree, path, "exec")


# ---- the stand-in HDF5 format, seen through the h5py interface ----
NATIVE = {}  # filled from the requests' header: native id -> numpy type


class MissingKey(KeyError):
    @property
    def message(self):
        return self.args[0]


class Dataset(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return self.a[key].copy() if isinstance(self.a[key], numpy.ndarray) else self.a[key]

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __array__(self, *args, **kw):
        return numpy.array(self.a)

    @property
    def value(self):
        return self.a.copy()

    def __getattr__(self, name):
        if name in ("shape", "dtype", "ndim", "size"):
            return getattr(self.a, name)
        raise AttributeError(name)


class Group(object):
    def __init__(self, f, path):
        self.f, self.path = f, path

    def __getitem__(self, name):
        return self.f[name if name.startswith("/") else self.path + "/" + name]

    def __contains__(self, name):
        return (name if name.startswith("/") else self.path + "/" + name) in self.f

    def get(self, name, default=None):
        return self[name] if name in self else default

    def keys(self):
        n = len(self.path) + 1
        return sorted(set(p[n:].split("/")[0] for p in self.f.sets if p.startswith(self.path + "/")))

    def __iter__(self):
        return iter(self.keys())


class Reader(object):
    def __init__(self, f):
        self.f = f

    def u(self):
        return struct.unpack("<Q", self.f.read(8))[0]

    def s(self):
        return self.f.read(self.u())

    def type(self):
        cls, native, size = self.u(), self.u(), self.u()
        members = [(self.s().decode(), self.u(), self.u()) for _ in range(self.u())]
        sub = [self.type() for _ in range(self.u())]
        dims = [self.u() for _ in range(self.u())]
        return cls, native, size, members, sub, dims


def plain(t):
    cls, native, size, members, sub, dims = t
    return (plain(sub[0])[0], tuple(dims)) if cls == 2 else (NATIVE[native], ())


class File(object):
    def __init__(self, name, mode):
        if mode != "r":
            raise IOError("mode")
        self.sets = {}
        with open(name, "rb") as f:
            if f.readline() != b"FAKEH5\n":
                raise IOError("Unable to open file (file signature not found)")
            r = Reader(f)
            for _ in range(r.u()):
                r.s()
            for _ in range(r.u()):
                path = r.s().decode()
                t = r.type()
                dims = tuple(r.u() for _ in range(r.u()))
                data = f.read(r.u())
                f.read(r.u())
                strs = [r.s().decode("utf-8", "surrogateescape") for _ in range(r.u())]
                self.sets[path] = self.array(t, dims, data, strs)
        for d in DROP:
            self.sets.pop(d, None)

    @staticmethod
    def array(t, dims, data, strs):
        cls, native, size, members, sub, _ = t
        n = int(numpy.prod(dims))
        if cls == 3:
            a = numpy.empty(n, dtype=object)
            a[:] = strs
            return a.reshape(dims)
        if cls == 1:
            fields, cols = [], {}
            for name, offset, k in members:
                if sub[k][0] == 3:
                    fields.append((name, object))
                    cols[name] = strs
                else:
                    base, shape = plain(sub[k])
                    fields.append((name, base, shape) if shape else (name, base))
                    w = numpy.dtype(base).itemsize * int(numpy.prod(shape))
                    cols[name] = [numpy.frombuffer(data[i * size + offset:i * size + offset + w], base).reshape(shape) for i in range(n)]
            a = numpy.empty(n, dtype=fields)
            for name in cols:
                for i in range(n):
                    a[name][i] = cols[name][i] if isinstance(cols[name][i], str) else (cols[name][i] if cols[name][i].shape else cols[name][i][()])
            return a.reshape(dims)
        return numpy.frombuffer(data, NATIVE[native]).reshape(dims).copy()

    def key(self, name):
        return name if name.startswith("/") else "/" + name

    def __getitem__(self, name):
        k = self.key(name).rstrip("/")
        if k not in self.sets and any(p.startswith(k + "/") for p in self.sets):
            return Group(self, k)
        if k not in self.sets:
            raise MissingKey("Unable to open object (object '%s' doesn't exist)" % name)
        return Dataset(self.sets[k])

    def get(self, name, default=None):
        return self[name] if name in self else default

    def keys(self):
        return Group(self, "").keys()

    def __iter__(self):
        return iter(self.keys())

    def close(self):
        pass

    def __contains__(self, name):
        k = self.key(name)
        return k in self.sets or any(p.startswith(k + "/") for p in self.sets)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


DROP = []
h5py = types.ModuleType("h5py")
h5py.File = File
sys.modules["h5py"] = h5py
GLOBALS = {"py2_div__": py2_div}

module = types.ModuleType("rb3d_processing")
module.__dict__.update(GLOBALS)
exec(load("rb3d_processing"), module.__dict__)
sys.modules["rb3d_processing"] = module
SCRIPTS = {n: load(n) for n in ("print_meshes", "print_collisions")}


def num(x):
    return "%.17g" % float(x)


def nums(a):
    return " ".join(num(x) for x in numpy.asarray(a).ravel())


def head(o, s):
    o.write("hash %s\niteration %s\ntime %s\ntimestep %s\n" % (s.git_hash, num(s.iteration), num(s.time), num(s.timestep)))


def run(cmd, path, out):
    if cmd == "state":
        with h5py.File(path, "r") as f:
            s = module.DiscreteState(f)
        head(out, s)
        out.write("bodies %s\n" % num(s.nbodies))
        for x, R, vel, omega, M, I, kinematic, name in s.meshBodies():
            assert R.shape == (3, 3) and I.shape == (3, 3)
            out.write("body %s | %s | %s | %s | %s | %s | %s | %s\n" % (nums(x), nums(R), nums(vel), nums(omega), num(M), nums(I), num(kinematic), name))
    elif cmd == "collisions":
        with h5py.File(path, "r") as f:
            s = module.CollisionState(f)
        head(out, s)
        out.write("count %s\n" % num(s.count))
        for impulse, indices, normal, point in s.collisions():
            out.write("collision %s | %s | %s | %s\n" % (nums(impulse), nums(indices), nums(normal), nums(point)))
    else:
        sys.argv = [cmd + ".py", path] if path else [cmd + ".py"]
        exec(SCRIPTS[cmd], dict(GLOBALS, __name__="__main__"))


numpy.set_printoptions(precision=17, threshold=10 ** 9, linewidth=10 ** 6)
real = sys.stdout
for line in sys.stdin:
    words = line.split()
    if not words:
        continue
    if words[0] == "types":
        NATIVE.update({int(a): b for a, b in (w.split("=") for w in words[1:])})
        continue
    DROP[:] = [w[5:] for w in words if w.startswith("drop=")]
    words = [w for w in words if not w.startswith("drop=")]
    out = io.StringIO()
    sys.stdout = out
    try:
        run(words[0], words[1] if len(words) > 1 else "", out)
        status = "ok"
    except SystemExit as e:
        status = "exit %s" % (str(e.code).split("\n")[0])
    except Exception as e:
        status = "error %s: %s" % (type(e).__name__, str(e).split("\n")[0])
    sys.stdout = real
    real.write(out.getvalue() + "STATUS " + status + "\nEND\n")
    real.flush()
