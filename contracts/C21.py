import z3
from pyvc import *
from symnp import fresh
from loader import Loader, SFilt, SPred
from harness import Harness

LU = "mass/core/ljh_util.py:"
CHAN = z3.Function("channel_of", STR, z3.IntSort())


def chan(name):
    return SNum(CHAN(SName.code(name)))


class Names(list):
    """a list of file names of any length; F(k) is the k-th name"""

    def __init__(self, c, nm):
        self.n = c.int("n_" + nm, lo=1)
        self.F = z3.Function(c.fname(nm), z3.IntSort(), STR)
        self.cur = SFilt(self.n, self.name, lambda k: True)
        self.touched = False

    def name(self, k): return SName(self.F(num(k).e))
    def slen(self): return self.n if not self.touched else self._u()
    def _u(self): raise Unsupported("length after filtering")
    def elem(self, k): return self.name(k)
    def as_filter(self): return self.cur
    def contains(self, x): return self.cur.contains(x)
    def __len__(self): raise Unsupported("length")

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k == slice(None)):
            raise Unsupported("store")
        self.cur, self.touched = v.as_filter(), True

    def sort(self, key=None):
        self.cur.sort(key=key)
        self.touched = True

    def remove(self, x): raise Unsupported("remove")


class Chans:
    """a container of channel numbers"""

    def __init__(self, c, nm):
        self.P = z3.Function(c.fname(nm), z3.IntSort(), z3.BoolSort())

    def contains(self, x): return SBool(self.P(num(x).e))


def idx(c, n, nm="k"):
    k = c.int(nm)
    c.assume(And(k >= 0, k < n))
    return k


def h_pair(c):
    L = Loader()
    m = L.load("mass.core.ljh_util")
    m.ljh_channum = chan
    A = Names(c, "pulse")
    two = c.choose("second list")
    B = Names(c, "noise") if two else ([] if c.choose("empty list") else None)
    never = Chans(c, "never") if c.choose("never_use") else None
    only = Chans(c, "only") if c.choose("use_only") else None
    kw = {}
    if never is not None:
        kw["never_use"] = never
    if only is not None:
        kw["use_only"] = only
    m.remove_unpaired_channel_files(A, B, **kw)

    def want(me, other, k):
        ch = chan(me.name(k))
        ok = True
        if other is not None:
            j = z3.Int(c.fname("j"))
            J = SNum(j)
            ok = SBool(z3.Exists([j], And(J >= 0, J < other.n, chan(other.name(J)) == ch).e))
        return And(ok, Not(never.contains(ch)) if never is not None else True, only.contains(ch) if only is not None else True)
    k = idx(c, A.n)
    c.ensure("pulse file stays exactly when its channel is paired and allowed", And(A.cur.n == A.n, A.cur.elem_(k) == A.name(k), Iff(A.cur.kept(k), want(A, B if two else None, k))))
    c.ensure("pulse files keep their order", not A.cur.keys)
    if two:
        k = idx(c, B.n, "kb")
        c.ensure("noise file stays exactly when its channel is paired and allowed", And(B.cur.n == B.n, B.cur.elem_(k) == B.name(k), Iff(B.cur.kept(k), want(B, A, k))))
        c.ensure("noise files keep their order", not B.cur.keys)
    c.cover("end")


def h_sort(c):
    L = Loader()
    m = L.load("mass.core.ljh_util")
    m.ljh_channum = chan
    A = Names(c, "f")
    inc = Chans(c, "inc") if c.choose("inclusion list") else None
    r = m.ljh_sort_filenames_numerically(A, inclusion_list=inc) if inc is not None else m.ljh_sort_filenames_numerically(A)
    r = r.as_filter()
    k, j = idx(c, A.n), idx(c, A.n, "j")
    c.ensure("exactly the files of listed channels", And(num(r.n) == A.n, r.elem_(k) == A.name(k), Iff(r.kept(k), inc.contains(chan(A.name(k))) if inc is not None else True)))
    x, y = A.name(k), A.name(j)
    c.ensure("by channel, then by name", Implies(x != y, Iff(r.before(k, j), Or(chan(x) < chan(y), And(chan(x) == chan(y), x < y)))))
    c.ensure("the caller's list is not changed", not A.touched and not A.cur.keys)
    c.cover("end")


def h_sort0(c):
    L = Loader()
    m = L.load("mass.core.ljh_util")
    c.ensure("nothing to sort", m.ljh_sort_filenames_numerically([]) is None and m.ljh_sort_filenames_numerically(None) is None)


class Text:
    """a file name: only the pieces that are taken out of it matter"""

    def __init__(self, what): self.what = what

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            return Text(("cut", self.what, k.start, k.stop))
        return Text(("item", self.what, k))

    def __eq__(self, o): return isinstance(o, Text) and self.what == o.what
    def __hash__(self): return hash(str(self.what))


def h_parse(c):
    """re.finditer yields the non-overlapping matches in order; the last one decides"""
    L = Loader()
    m = L.load("mass.core.ljh_util")
    nm = Text("name")
    nmatch = 0
    while nmatch < 3 and c.choose("another marker"):
        nmatch += 1
    pos = [c.int(f"pos{i}") for i in range(nmatch)]
    digits = ["7", "012", "345"]
    pats = []

    class Match:
        def __init__(self, i): self.i = i
        def start(self, *a): return pos[self.i]
        def end(self, *a): return pos[self.i] + 5 + len(digits[self.i])
        def group(self, *a): return "_chan" + digits[self.i]

    class Re:
        def __getattr__(self, k):
            import re
            return getattr(re, k)

        @staticmethod
        def finditer(p, s, *a):
            pats.append((p, s))
            return iter([Match(i) for i in range(nmatch)])

        @staticmethod
        def findall(*a): raise Unsupported("findall")
        @staticmethod
        def search(*a): raise Unsupported("search")

    class Path:
        def __getattr__(self, k): raise Unsupported("path." + k)
        @staticmethod
        def isdir(n): return False
        @staticmethod
        def splitext(n): return Text(("root", n.what)), Text("ext")
    m.re, m.path = Re(), Path()
    base, ch = m.ljh_basename_channum(nm)
    import re
    c.ensure("markers are searched in the name", len(pats) == 1 and pats[0][1] is nm and (pats[0][0] == r"_chan\d+" or (re.fullmatch(pats[0][0], "_chan0123456789") and not re.fullmatch(pats[0][0], "_chan") and not re.fullmatch(pats[0][0], "_chan1x"))))
    if nmatch:
        c.ensure("channel of the last marker", ch == int(digits[nmatch - 1]))
        w = base.what
        c.ensure("base name up to the last marker", w[0] == "cut" and w[1] == "name" and w[2] in (None, 0) and w[3] is pos[nmatch - 1])
    else:
        c.ensure("no marker: no channel, name without suffix", ch is None and base.what == ("root", "name"))


def h_names(c):
    L = Loader()
    m = L.load("mass.core.ljh_util")
    for name, base, ext in (("/d/a_chan3.ljh", "/d/a", ".ljh"), ("/d/x_chan1/a_chan22.noi", "/d/x_chan1/a", ".noi")):
        m.path.isdir = lambda n: False
        c.ensure("names of channels " + name, m.ljh_chan_names(name, [5, 12]) == [base + "_chan5" + ext, base + "_chan12" + ext])


HARNESSES = [
    Harness("remove_unpaired_channel_files", h_pair, functions=[LU + "remove_unpaired_channel_files"]),
    Harness("ljh_sort_filenames_numerically", h_sort, functions=[LU + "ljh_sort_filenames_numerically"]),
    Harness("ljh_sort_filenames_numerically, nothing", h_sort0, functions=[LU + "ljh_sort_filenames_numerically"]),
    Harness("ljh_basename_channum", h_parse, functions=[LU + "ljh_basename_channum"], bounded="at most 3 channel markers in a name; re.finditer by contract"),
]
