"""Arrays placed in memory as a plan of spec/Layout.tla says, between pages that cannot be touched."""
import ctypes, mmap
import numpy as np

GEO = dict(plain=(0, 1, 0), off=(2, 1, 3), head=(0, 1, 4), tail=(5, 1, 0), step2=(1, 2, 1), step3=(0, 3, 0), neg=(0, -1, 0), negoff=(2, -1, 1),
           negstep=(1, -2, 2), rep=(0, 0, 0))
GUARDINT = 2000000000        # how a guard cell is written in a record

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = mmap.PAGESIZE
_maps = []


def fenced(nbytes, end):
    """a buffer whose end (or start) lies at a page that must not be touched"""
    n = max(1, -(-nbytes // PAGE)) * PAGE
    p = libc.mmap(None, n + 2 * PAGE, 3, 0x22, -1, 0)
    if p in (None, ctypes.c_void_p(-1).value):
        raise MemoryError
    libc.mprotect(p, PAGE, 0)
    libc.mprotect(p + PAGE + n, PAGE, 0)
    _maps.append((p, n + 2 * PAGE))
    at = p + PAGE + (n - nbytes if end else 0)
    return (ctypes.c_char * nbytes).from_address(at)


def release():
    while _maps:
        libc.munmap(*_maps.pop())


def guard(dt):
    if dt.kind in "fc":
        return np.array(np.nan if dt.kind == "f" else complex(np.nan, np.nan), dt)
    return np.array(1 if dt.kind == "b" else 99, dt)


class Placed:
    """one block of memory with the views cut out of it"""

    def __init__(self, shape, dtype, plan, slots=1, shift=0, end=True, fill=None):
        item = plan["item"]
        kinds, perm = plan["kinds"], [p - 1 for p in plan["perm"]]
        self.plan, self.shape, self.shift = plan, tuple(shape), shift
        dt = np.dtype(dtype)
        dt = dt.newbyteorder() if item == "swapped" else dt
        ext = [self.extent(kinds[a], shape[a]) for a in perm]
        self.room = (slots - 1) * shift
        cells = int(np.prod(ext, dtype=int)) + self.room
        cell = np.dtype([("p", "u1"), ("v", dt)]) if item == "odd" else dt
        buf = fenced(cells * cell.itemsize, end)
        raw = np.frombuffer(buf, cell, cells) if cells else np.empty(0, cell)
        self.cells = raw["v"] if item == "odd" else raw
        self.raw = raw.view(np.uint8) if item != "odd" else np.frombuffer(buf, np.uint8) if cells else np.empty(0, np.uint8)
        self.cells[...] = guard(dt) if fill is None or dt.kind not in "fc" else fill
        self.views = [self.cut(self.cells[j * shift:len(self.cells) - self.room + j * shift].reshape(ext), kinds, perm) for j in range(slots)]
        self.before = None

    @staticmethod
    def extent(kind, n):
        a, st, b = GEO[kind]
        return 1 if kind == "rep" else a + (abs(st) * (n - 1) + 1 if n else 0) + b

    def cut(self, v, kinds, perm):
        v = v.transpose(np.argsort(perm))
        for i, k in enumerate(kinds):
            a, st, _ = GEO[k]
            n = self.shape[i]
            if k == "rep":
                v = np.lib.stride_tricks.as_strided(v, [*v.shape[:i], n, *v.shape[i + 1:]], [*v.strides[:i], 0, *v.strides[i + 1:]])
                continue
            if st < 0:
                lo = a + (-st) * (n - 1)
                hi = a - 1
                sl = slice(lo, hi if hi >= 0 else None, st) if n else slice(a, a)
            else:
                sl = slice(a, a + st * n if st == 1 else a + st * (n - 1) + 1 if n else a, st)
            v = v[(slice(None),) * i + (sl,)]
        assert v.shape == self.shape, (v.shape, self.shape, kinds)
        return v

    def seal(self):
        """the arguments are in place: what the memory holds from now on must stay"""
        self.before = self.raw.copy()
        self.bcells = np.array(self.cells)

    def same(self):
        return np.array_equal(self.raw, self.before)

    def given(self, j=0):
        v = self.views[j]
        if self.plan["item"] == "ro":
            v = v.view()
            v.setflags(write=False)
        elif self.plan["item"] == "sub":
            from calls import SubArr
            v = v.view(SubArr)
        return v

    def json(self, part, j=0):
        def ints(a):
            a = a.real if part == "re" else a.imag if a.dtype.kind == "c" else a * 0
            a = a.astype(np.longdouble) if a.dtype.kind == "f" else a
            return [GUARDINT if x != x else int(x) for x in a.tolist()]
        v = self.views[j]
        size = self.cells.strides[0] if len(self.cells) else 1
        base = self.cells.__array_interface__["data"][0]
        plan = dict(perm=self.plan["perm"], kinds=self.plan["kinds"])
        return dict(s=list(self.shape), plan=plan, mem=ints(self.bcells), after=ints(np.array(self.cells)), room=self.room, shift=j * self.shift,
                    off=(v.__array_interface__["data"][0] - base) // size if v.size else 0, st=[s // size for s in v.strides],
                    d=ints(np.array(v).ravel()))


def place(x, plan, keep, end=None, fill=None):
    h = x.size + sum(map(ord, "".join(plan["kinds"])))
    p = Placed(x.shape, x.dtype, plan, end=bool(h & 1) if end is None else end, fill=fill)
    p.views[0][...] = x
    p.seal()
    keep.append((p, None))
    return p.given()
