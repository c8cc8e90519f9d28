"""Linear-integer abstract domain: linear expressions over symbols, conjunctions of
integer linear constraints (convex polyhedra with integer tightening), entailment by
Fourier-Motzkin projection.  This is the numeric lattice of the abstract interpreter."""
from math import gcd

W64 = 1 << 64


class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'defn', 'origin')

    def __init__(self, id, name, lo, hi, kind, defn, origin):
        self.id, self.name, self.lo, self.hi, self.kind, self.defn, self.origin = id, name, lo, hi, kind, defn, origin


SYMS = []
_TERMS = {}


PREFER = None


def reset():
    SYMS.clear()
    _TERMS.clear()


def newsym(name, lo=None, hi=None, kind=None, defn=None, origin=None):
    s = Sym(len(SYMS), name, lo, hi, kind, defn, origin)
    SYMS.append(s)
    return s.id


class Lin:
    __slots__ = ('c', 'k', '_h', '_key')

    def __init__(self, c, k):
        self.c = c      # dict sym->coef (non-zero)
        self.k = k
        self._h = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.c.items())), self.k)
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    def isconst(self):
        return not self.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        if not o.c:
            return Lin(self.c, self.k + o.k)
        c = dict(self.c)
        for s, v in o.c.items():
            n = c.get(s, 0) + v
            if n:
                c[s] = n
            else:
                c.pop(s, None)
        return Lin(c, self.k + o.k)

    def __neg__(self):
        return Lin({s: -v for s, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k - o)
        return self + (-o)

    def mul(self, n):
        if n == 0:
            return Lin({}, 0)
        return Lin({s: v * n for s, v in self.c.items()}, self.k * n)

    def content(self):
        g = 0
        for v in self.c.values():
            g = gcd(g, v)
        return g

    def div(self, n):
        return Lin({s: v // n for s, v in self.c.items()}, self.k // n)

    def divisible(self, n):
        return self.k % n == 0 and all(v % n == 0 for v in self.c.values())

    def subst(self, m):
        """m: sym->Lin"""
        hit = None
        for s in self.c:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        c = {}
        k = self.k
        for s, v in self.c.items():
            r = m.get(s)
            if r is None:
                n = c.get(s, 0) + v
                if n:
                    c[s] = n
                else:
                    c.pop(s, None)
            else:
                k += r.k * v
                for s2, v2 in r.c.items():
                    n = c.get(s2, 0) + v * v2
                    if n:
                        c[s2] = n
                    else:
                        c.pop(s2, None)
        return Lin(c, k)

    def __repr__(self):
        if not self.c:
            return str(self.k)
        t = []
        for s, v in sorted(self.c.items()):
            n = SYMS[s].name if s < len(SYMS) else '?%d' % s
            n = '%s#%d' % (n, s)
            if v == 1:
                t.append('+' + n)
            elif v == -1:
                t.append('-' + n)
            else:
                t.append('%+d*%s' % (v, n))
        r = ''.join(t)
        if r[0] == '+':
            r = r[1:]
        if self.k:
            r += '%+d' % self.k
        return r


def C(n):
    return Lin({}, n)


def V(s):
    return Lin({s: 1}, 0)


def term(op, args, name, lo=None, hi=None, kind=None):
    """hash-consed uninterpreted term: the same operator over the same linear arguments is the same symbol"""
    key = (op,) + tuple(a.key() if isinstance(a, Lin) else a for a in args)
    s = _TERMS.get(key)
    if s is None:
        s = newsym(name, lo, hi, kind, defn=(op,) + tuple(args))
        _TERMS[key] = s
        return s, True
    return s, False


def bounds(e):
    lo = hi = e.k
    for s, v in e.c.items():
        y = SYMS[s]
        a, b = (y.lo, y.hi) if v > 0 else (y.hi, y.lo)
        if lo is not None:
            lo = None if a is None else lo + v * a
        if hi is not None:
            hi = None if b is None else hi + v * b
        if lo is None and hi is None:
            return None, None
    return lo, hi


def tighten(e):
    """e >= 0 normalised by the gcd of its coefficients with integer rounding"""
    g = e.content()
    if g > 1:
        return Lin({s: v // g for s, v in e.c.items()}, e.k // g)
    return e


FM_LIMIT = 600
STATS = {'fm': 0, 'fm_giveup': 0, 'queries': 0, 'quick': 0}


_FM = None


def _fm():
    """compiled row eliminator (fm.c), rebuilt per process tree into a private directory; Python fallback below"""
    global _FM
    if _FM is None:
        import ctypes, os, subprocess, tempfile, shutil, atexit
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fm.c')
        try:
            so = os.environ.get('SA_FM_SO')
            if not so or not os.path.exists(so):
                d = tempfile.mkdtemp(prefix='safm')
                so = os.path.join(d, 'fm.so')
                subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-o', so, src])
                pid = os.getpid()
                atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, True))
                os.environ['SA_FM_SO'] = so
            lib = ctypes.CDLL(so)
            f = lib.fm_unsat
            f.restype = ctypes.c_int
            I = ctypes.c_int
            f.argtypes = [I, I, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p, I, I]
            _FM = (f, ctypes)
        except Exception:
            _FM = (None, None)
    return _FM


_MEMO = {}
LIM127 = 1 << 126


def unsat(cons):
    """infeasibility of integer rows (each >= 0); memoised"""
    STATS['fm'] += 1
    f, ct = _fm()
    if f is None:
        return unsat_py(cons)
    from array import array
    tab = {}
    for e in cons:
        if not e.c:
            if e.k < 0:
                return True
            continue
        key = e.key()[0]
        o = tab.get(key)
        if o is None or e.k < o:
            tab[key] = e.k
    if not tab:
        return False
    # rename columns by first occurrence in sorted order: structurally equal systems share the memo entry
    items = sorted(tab.items())
    cols = {}
    ptr = [0]
    col = []
    vals = []
    ks = []
    for key, k in items:
        for s, v in key:
            j = cols.get(s)
            if j is None:
                j = cols[s] = len(cols)
            col.append(j)
            vals.append(v)
        ptr.append(len(col))
        ks.append(k)
    mk = (tuple(ptr), tuple(col), tuple(vals), tuple(ks))
    r = _MEMO.get(mk)
    if r is not None:
        STATS['quick'] += 1
        return r
    try:
        vb = b''.join([v.to_bytes(16, 'little', signed=True) for v in vals])
        kb = b''.join([k.to_bytes(16, 'little', signed=True) for k in ks])
    except OverflowError:
        return unsat_py(cons)
    pa = array('i', ptr)
    ca = array('i', col)
    r = bool(f(len(ks), len(cols), pa.buffer_info()[0], ca.buffer_info()[0], vb, kb, 3000, 60000))
    if len(_MEMO) > 400000:
        _MEMO.clear()
    _MEMO[mk] = r
    return r


def unsat_py(cons):
    """cons: iterable of Lin (each >= 0, integer symbols).  True only if infeasible."""
    STATS['fm'] += 1
    tab = {}
    for e in cons:
        e = tighten(e)
        if not e.c:
            if e.k < 0:
                return True
            continue
        key = tuple(sorted(e.c.items()))
        o = tab.get(key)
        if o is None or e.k < o.k:
            tab[key] = e
    rows = list(tab.values())
    work = 0
    while rows:
        # contradiction between opposite rows
        idx = {}
        for e in rows:
            idx[tuple(sorted(e.c.items()))] = e.k
        for key, k in idx.items():
            neg = tuple((s, -v) for s, v in key)
            if neg in idx and idx[neg] + k < 0:
                return True
        pos, neg, big = {}, {}, {}
        for e in rows:
            for s, v in e.c.items():
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                    if v > 1:
                        big[s] = 1
                else:
                    neg[s] = neg.get(s, 0) + 1
                    if v < -1:
                        big[s] = 1
        # drop rows with one-sided variables
        one = set(s for s in pos if s not in neg) | set(s for s in neg if s not in pos)
        if one:
            nr = [e for e in rows if not any(s in one for s in e.c)]
            rows = nr
            continue
        best = None
        for s in pos:
            p_, n_ = pos[s], neg[s]
            # unit-coefficient (integer-exact) eliminations first
            cst = (1 if s in big and p_ * n_ > 1 else 0, p_ * n_ - p_ - n_)
            if best is None or cst < best[0]:
                best = (cst, s)
        if best is None:
            return False
        s = best[1]
        P = [e for e in rows if e.c.get(s, 0) > 0]
        N = [e for e in rows if e.c.get(s, 0) < 0]
        R = [e for e in rows if s not in e.c]
        tab = {}
        for e in R:
            tab[tuple(sorted(e.c.items()))] = e
        for p in P:
            a = p.c[s]
            for n in N:
                b = -n.c[s]
                g = gcd(a, b)
                e = p.mul(b // g) + n.mul(a // g)
                e = tighten(e)
                work += 1
                if not e.c:
                    if e.k < 0:
                        return True
                    continue
                key = tuple(sorted(e.c.items()))
                o = tab.get(key)
                if o is None or e.k < o.k:
                    tab[key] = e
        rows = list(tab.values())
        if len(rows) > FM_LIMIT or work > 20000:
            STATS['fm_giveup'] += 1
            return False
    return False


class Cons:
    """a conjunction of linear constraints: solved equalities + inequalities + disequalities"""
    __slots__ = ('sub', 'ineq', 'dis', 'bot')

    def __init__(self):
        self.sub = {}
        self.ineq = {}     # coef-key -> Lin (tightest)
        self.dis = set()
        self.bot = False

    def copy(self):
        n = Cons.__new__(Cons)
        n.sub = dict(self.sub)
        n.ineq = dict(self.ineq)
        n.dis = set(self.dis)
        n.bot = self.bot
        return n

    def norm(self, e):
        if self.sub:
            return e.subst(self.sub)
        return e

    # -- queries
    def _cone(self, e, maxn=70):
        syms = set(e.c)
        out = []
        rows = list(self.ineq.values())
        used = [False] * len(rows)
        frontier = syms
        allsyms = set(syms)
        while True:
            new = set()
            for i, r in enumerate(rows):
                if used[i]:
                    continue
                if any(s in frontier for s in r.c):
                    used[i] = True
                    out.append(r)
                    for s in r.c:
                        if s not in allsyms:
                            new.add(s)
            if not new or len(out) > maxn:
                break
            allsyms |= new
            frontier = new
        for s in allsyms:
            y = SYMS[s]
            if y.lo is not None:
                out.append(Lin({s: 1}, -y.lo))
            if y.hi is not None:
                out.append(Lin({s: -1}, y.hi))
        return out

    def feasible_with(self, e):
        """could  e >= 0  hold together with the constraints? (False = proved impossible)"""
        e = tighten(self.norm(e))
        if not e.c:
            return e.k >= 0
        lo, hi = bounds(e)
        if hi is not None and hi < 0:
            return False
        if lo is not None and lo >= 0:
            return True
        key = tuple(sorted((s, -v) for s, v in e.c.items()))
        o = self.ineq.get(key)
        if o is not None and o.k + e.k < 0:
            return False
        cone = self._cone(e)
        cone.append(e)
        return not unsat(cone)

    def ge0(self, e):
        """entails e >= 0"""
        if self.bot:
            return True
        STATS['queries'] += 1
        e = self.norm(e)
        if not e.c:
            return e.k >= 0
        lo, hi = bounds(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        t = tighten(e)
        o = self.ineq.get(tuple(sorted(t.c.items())))
        if o is not None and o.k <= t.k:
            return True
        return not self.feasible_with(-e - 1)

    def eq0(self, e):
        e = self.norm(e)
        if self.bot:
            return True
        if not e.c:
            return e.k == 0
        g = e.content()
        if e.k % g:
            return False
        return self.ge0(e) and self.ge0(-e)

    def ne0(self, e):
        e = self.norm(e)
        if self.bot:
            return True
        if not e.c:
            return e.k != 0
        g = e.content()
        if e.k % g:
            return True
        if g > 1:
            e = e.div(g)
        if e in self.dis or (-e) in self.dis:
            return True
        if self.ge0(e - 1) or self.ge0(-e - 1):
            return True
        # e==0 forced to conflict?  test feasibility with equality
        cone = self._cone(e)
        cone.append(e)
        cone.append(-e)
        if unsat(cone):
            return True
        # a known disequality implied equal under e==0
        for d in self.dis:
            for sg in (1, -1):
                x = d - e if sg == 1 else d + e
                if not x.c and x.k == 0:
                    return True
        return False

    # -- updates (return False when the state becomes infeasible)
    def add_ge(self, e, check=True):
        e = tighten(self.norm(e))
        if not e.c:
            if e.k < 0:
                self.bot = True
                return False
            return True
        lo, hi = bounds(e)
        if hi is not None and hi < 0:
            self.bot = True
            return False
        if lo is not None and lo >= 0:
            return True
        key = tuple(sorted(e.c.items()))
        o = self.ineq.get(key)
        if o is not None and o.k <= e.k:
            return True
        nkey = tuple((s, -v) for s, v in key)
        n = self.ineq.get(nkey)
        if n is not None:
            if n.k + e.k < 0:
                self.bot = True
                return False
            if n.k + e.k == 0:
                return self.add_eq(e)
        if hi is not None and hi == 0 and len(e.c) == 1:
            return self.add_eq(e)
        if check and not self.feasible_with(e):
            self.bot = True
            return False
        self.ineq[key] = e
        # disequality tightening
        for d in list(self.dis):
            if tuple(sorted(d.c.items())) == key or tuple(sorted((s, -v) for s, v in d.c.items())) == key:
                dd = d if d.c == e.c else -d
                if dd.k == e.k:
                    self.dis.discard(d)
                    return self.add_ge(e - 1, check)
        return True

    def add_eq(self, e, check=True):
        e = self.norm(e)
        if not e.c:
            if e.k != 0:
                self.bot = True
                return False
            return True
        g = e.content()
        if e.k % g:
            self.bot = True
            return False
        if g > 1:
            e = e.div(g)
        if e in self.dis or (-e) in self.dis:
            self.bot = True
            return False
        cand = [s for s, v in e.c.items() if v in (1, -1)]
        if not cand:
            # solve  a*x + b*y + ... : introduce parameter when two symbols
            r = self._solve2(e)
            if r is not None:
                return r
            a = self.add_ge_raw(e)
            b = self.add_ge_raw(-e)
            if check and (not self.feasible_with(e) or not self.feasible_with(-e)):
                self.bot = True
                return False
            return a and b
        def solved(s):
            return Lin({t: w for t, w in e.c.items() if t != s}, e.k).mul(-e.c[s])    # s = -rest/v ; v=+-1
        s = None
        if PREFER is not None:      # symbols better written in terms of others
            p = [x for x in cand if SYMS[x].kind == 'slotptr' and PREFER(x, solved(x))]
            if p:
                s = max(p)
        if s is None:
            s = max(cand, key=lambda x: ((0 if SYMS[x].kind else 1), x))
        rep = solved(s)
        return self._elim(s, rep, check)

    def _solve2(self, e):
        """ a*x + b*y + k == 0 with |a|,|b|>1, coprime: x = x0 + b*t, y = y0 - a*t """
        if len(e.c) != 2:
            return None
        (x, a), (y, b) = e.c.items()

        def ext(a, b):
            if b == 0:
                return (a, 1, 0)
            g, u, v = ext(b, a % b)
            return (g, v, u - (a // b) * v)
        g, u, v = ext(a, b)
        if g < 0:
            g, u, v = -g, -u, -v
        if g != 1:
            return None
        x0, y0 = -e.k * u, -e.k * v
        t = newsym('t')
        if not self._elim(x, Lin({t: b}, x0), False):
            return False
        return self._elim(y, Lin({t: -a}, y0), True)

    def add_ge_raw(self, e):
        e = tighten(e)
        key = tuple(sorted(e.c.items()))
        o = self.ineq.get(key)
        if o is None or e.k < o.k:
            self.ineq[key] = e
        return True

    def _elim(self, s, rep, check=True):
        m = {s: rep}
        for t in list(self.sub):
            r = self.sub[t]
            if s in r.c:
                self.sub[t] = r.subst(m)
        self.sub[s] = rep
        y = SYMS[s]
        old = [e for e in self.ineq.values() if s in e.c]
        for e in old:
            del self.ineq[tuple(sorted(e.c.items()))]
        todo = [e.subst(m) for e in old]
        if y.lo is not None:
            todo.append(rep - y.lo)
        if y.hi is not None:
            todo.append(C(y.hi) - rep)
        od = [d for d in self.dis if s in d.c]
        for d in od:
            self.dis.discard(d)
        for e in todo:
            if not self.add_ge(e, False):
                return False
        for d in od:
            if not self.add_ne(d):
                return False
        if check and rep.c:
            # quick feasibility around the new expression
            cone = self._cone(rep)
            if unsat(cone):
                self.bot = True
                return False
        return True

    def add_ne(self, e):
        e = self.norm(e)
        if not e.c:
            if e.k == 0:
                self.bot = True
                return False
            return True
        g = e.content()
        if e.k % g:
            return True
        if g > 1:
            e = e.div(g)
        if self.ge0(e):
            return self.add_ge(e - 1)
        if self.ge0(-e):
            return self.add_ge(-e - 1)
        f = e if min(e.c.items())[1] > 0 else -e
        self.dis.add(f)
        return True

    def syms(self):
        out = set()
        for e in self.ineq.values():
            out.update(e.c)
        for e in self.dis:
            out.update(e.c)
        return out

    def gc(self, keep):
        """drop constraints about symbols no longer reachable (projecting cheap ones)"""
        for s in list(self.sub):
            if s not in keep:
                del self.sub[s]
        # eliminate unreachable symbols by FM when cheap
        changed = True
        while changed:
            changed = False
            cnt = {}
            for e in self.ineq.values():
                for s, v in e.c.items():
                    if s not in keep:
                        a, b = cnt.get(s, (0, 0))
                        cnt[s] = (a + 1, b) if v > 0 else (a, b + 1)
            for s, (a, b) in sorted(cnt.items(), key=lambda x: x[1][0] * x[1][1]):
                y = SYMS[s]
                P = [e for e in self.ineq.values() if e.c.get(s, 0) > 0]
                N = [e for e in self.ineq.values() if e.c.get(s, 0) < 0]
                if y.lo is not None:
                    P.append(Lin({s: 1}, -y.lo))
                if y.hi is not None:
                    N.append(Lin({s: -1}, y.hi))
                for e in [e for e in self.ineq.values() if s in e.c]:
                    del self.ineq[tuple(sorted(e.c.items()))]
                if len(P) * len(N) <= 16:
                    for p in P:
                        for n in N:
                            a_, b_ = p.c[s], -n.c[s]
                            g = gcd(a_, b_)
                            r = tighten(p.mul(b_ // g) + n.mul(a_ // g))
                            if not r.c:
                                continue
                            lo, hi = bounds(r)
                            if lo is not None and lo >= 0:
                                continue
                            self.add_ge_raw(r)
                changed = True
                break
        self.dis = set(d for d in self.dis if all(s in keep for s in d.c))
