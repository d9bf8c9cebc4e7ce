"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

Every function is executed once, path by path, with symbolic arguments. Calls are replaced by the callee's
contract, loops by inductive invariants (candidate pool filtered by Houdini). Every obligation is sent to z3
(cvc5 as second back end)."""
import os, re, subprocess, sys, tempfile, time
import z3
from z3 import *
import cxx, irparse
import logic as L
from logic import VerifUnsupported, zs, fresh, I, PtrDT, StrS, WordS

INTSORTS = ('i8', 'i16', 'i32', 'i64')
W2 = {1: 2, 8: 2**8, 16: 2**16, 32: 2**32, 64: 2**64}


def Z(x):
    return IntVal(x) if isinstance(x, int) else x


def isc(x):
    return isinstance(x, int) or z3.is_int_value(x)


def cv(x):
    return x if isinstance(x, int) else x.as_long()


def zadd(a, b):
    if isc(a) and isc(b):
        return IntVal(cv(a) + cv(b))
    if isc(b) and cv(b) == 0:
        return Z(a)
    if isc(a) and cv(a) == 0:
        return Z(b)
    return simplify(Z(a) + Z(b), som=False) if False else Z(a) + Z(b)


def zmul(a, b):
    if isc(a) and isc(b):
        return IntVal(cv(a) * cv(b))
    if isc(b) and cv(b) == 1:
        return Z(a)
    if isc(a) and cv(a) == 1:
        return Z(b)
    return Z(a) * Z(b)


class IV:
    __slots__ = ("w", "_u", "_s", "_b", "_uonly")

    def __init__(self, w, u=None, s=None, b=None):
        self.w = w
        self._u = Z(u) if u is not None else None
        self._s = Z(s) if s is not None else None
        self._b = b
        self._uonly = u is not None and s is None

    @staticmethod
    def const(w, v):
        if w == 1:
            return IV(1, b=BoolVal(bool(v & 1)))
        u = v % (1 << w)
        return IV(w, u=u, s=u - (1 << w) if u >= (1 << (w - 1)) else u)

    @property
    def u(self):
        if self._u is None:
            if self._b is not None:
                self._u = If(self._b, IntVal(1), IntVal(0))
            elif isc(self._s):
                self._u = IntVal(cv(self._s) % (1 << self.w))
            else:
                self._u = If(self._s < 0, self._s + IntVal(1 << self.w), self._s)
        return self._u

    @property
    def s(self):
        if self._s is None:
            u = self.u
            h = 1 << (self.w - 1)
            if isc(u):
                v = cv(u)
                self._s = IntVal(v - 2 * h if v >= h else v)
            else:
                self._s = If(u >= IntVal(h), u - IntVal(2 * h), u)
        return self._s

    @property
    def b(self):
        if self._b is None:
            u = self.u
            if isc(u):
                self._b = BoolVal(bool(cv(u) & 1))
            elif self.w == 1:
                self._b = u == 1
            else:
                m = _as_bool_ite(u)
                self._b = m if m is not None else (u % 2 == 1)
        return self._b

    def isconst(self):
        return (self._u is not None and isc(self._u)) or (self._s is not None and isc(self._s))

    def cval(self):
        return cv(self._u) if self._u is not None and isc(self._u) else cv(self._s) % (1 << self.w)

    def __repr__(self):
        return "IV%d(%s)" % (self.w, self._b if self._b is not None else (self._u if self._u is not None else self._s))


def _as_bool_ite(u):
    if z3.is_app(u) and u.decl().kind() == Z3_OP_ITE and isc(u.arg(1)) and isc(u.arg(2)):
        if cv(u.arg(1)) == 1 and cv(u.arg(2)) == 0:
            return u.arg(0)
    return None


class Ptr:
    pass


class PB(Ptr):
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = Z(obj), Z(off)

    def __repr__(self):
        return "PB(%s,%s)" % (self.obj, self.off)


NULL = PB(0, 0)


class PA(Ptr):
    __slots__ = ("id", "off")

    def __init__(self, id, off=0):
        self.id, self.off = id, off

    def __repr__(self):
        return "PA(%s,%d)" % (self.id, self.off)


class PE(Ptr):
    """pointer to (byte off in) an element of a container: vector element idx / map node with key"""
    __slots__ = ("cont", "cs", "key", "off")

    def __init__(self, cont, cs, key, off=0):
        self.cont, self.cs, self.key, self.off = cont, cs, Z(key) if isinstance(key, int) else key, off

    def __repr__(self):
        return "PE(%r,%s,%s,%d)" % (self.cont, cxx.sname(self.cs), self.key, self.off)


class IT(Ptr):
    """map/set iterator position; rank == card means end"""
    __slots__ = ("cont", "cs", "rank", "key")

    def __init__(self, cont, cs, rank, key=None):
        self.cont, self.cs, self.rank, self.key = cont, cs, Z(rank), key

    def __repr__(self):
        return "IT(%r,%s,%s)" % (self.cont, self.rank, self.key)


class PG(Ptr):
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, Z(off)

    def __repr__(self):
        return "PG(%s,%s)" % (self.name, self.off)


class PS(Ptr):
    __slots__ = ("s", "off")

    def __init__(self, s, off=0):
        self.s, self.off = s, Z(off)


class PV(Ptr):
    """reference to a logical value that only may be read (what an accessor returns)"""
    __slots__ = ("sort", "val", "off")

    def __init__(self, sort, val, off=0):
        self.sort, self.val, self.off = sort, val, off


class PX(Ptr):
    """exception object"""
    __slots__ = ("id", "cls")

    def __init__(self, id, cls=None):
        self.id, self.cls = id, cls


class PVT(Ptr):
    """virtual table of an exception object (level 0), one of its functions (level 1)"""
    __slots__ = ("px", "off", "level")

    def __init__(self, px, off=0, level=0):
        self.px, self.off, self.level = px, off, level


class Undef:
    pass


UND = Undef()


def same(a, b):
    """structural equality of pointers/values"""
    if type(a) is not type(b):
        return False
    if isinstance(a, PB):
        return a.obj.eq(b.obj) and a.off.eq(b.off)
    if isinstance(a, PA):
        return a.id == b.id and a.off == b.off
    if isinstance(a, PE):
        return a.cs == b.cs and a.off == b.off and same(a.cont, b.cont) and a.key.eq(b.key)
    if isinstance(a, IT):
        return same(a.cont, b.cont) and a.rank.eq(b.rank)
    if isinstance(a, PG):
        return a.name == b.name and a.off.eq(b.off)
    if isinstance(a, IV):
        return a.w == b.w and ((a.isconst() and b.isconst() and a.cval() == b.cval()) or a.u.eq(b.u))
    if isinstance(a, PS):
        return a.s.eq(b.s) and a.off.eq(b.off)
    if isinstance(a, PV):
        return a.sort == b.sort and a.val.eq(b.val) and a.off == b.off
    if z3.is_expr(a):
        return a.eq(b)
    return a is b


class St:
    __slots__ = ("mem", "cells", "g", "path", "loops", "writes", "exc", "caught", "seen", "bg", "facts", "ncall")

    def __init__(self):
        self.mem = {}
        self.cells = {}     # (id, off) -> (sort, value)
        self.bg = {}        # id -> [(dst off, n, cells/mem snapshot, src ptr)]
        self.g = {}         # ghost: alive, next, owner
        self.path = []
        self.loops = []
        self.writes = []
        self.exc = None
        self.caught = []
        self.seen = set()
        self.ncall = 0

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.cells = dict(self.cells)
        s.bg = dict(self.bg)
        s.g = dict(self.g)
        s.path = list(self.path)
        s.loops = list(self.loops)
        s.writes = list(self.writes)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.seen = set(self.seen)
        s.ncall = self.ncall
        return s

    def assume(self, f):
        if f is True or z3.is_true(f):
            return
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        k = f.get_id()
        if k in self.seen:
            return
        self.seen.add(k)
        self.path.append(f)


# ------------------------------------------------------------------ prover
_symc = {}
_keep = []


_uni = {}


def _children(x):
    if z3.is_quantifier(x):
        return [x.body()] + [x.pattern(n) for n in range(x.num_patterns())]
    return x.children() if z3.is_app(x) else []


def syms(f):
    """(names of the functions in f, whether f has quantifiers), remembered for every subterm"""
    r = _symc.get(f.get_id())
    if r is not None:
        return r
    st = [(f, None)]
    while st:
        x, ch = st.pop()
        i = x.get_id()
        if i in _symc:
            continue
        if ch is None:
            ch = _children(x)
            new = [(c, None) for c in ch if c.get_id() not in _symc]
            if new:
                st.append((x, ch))
                st.extend(new)
                continue
        rs = [_symc[c.get_id()] for c in ch]
        q = z3.is_quantifier(x) or any(t[1] for t in rs)
        sets = list({id(t[0]): t[0] for t in rs}.values())
        own = None
        if z3.is_app(x):
            d = x.decl()
            if d.kind() in (Z3_OP_UNINTERPRETED, Z3_OP_DT_ACCESSOR, Z3_OP_DT_CONSTRUCTOR):
                own = d.name()
        big = max(sets, key=len) if sets else frozenset()
        if all(t <= big for t in sets) and (own is None or own in big):
            out = big
        else:
            out = frozenset().union(*sets, [own] if own is not None else [])
            out = _uni.setdefault(out, out)
        _symc[i] = (out, q)
        _keep.append(x)
    return _symc[f.get_id()]


def hasq(f):
    return syms(f)[1]


def axioms_for(fs):
    have = set()
    for f in fs:
        have |= syms(f)[0]
    used = []
    rest = [a for a in L.AXIOMS if a[2] not in L.OPAQUE]
    ch = True
    defs = set()
    while ch:
        ch = False
        for d in [n for n in have if n.startswith('def@') and n not in defs]:
            defs.add(d)
            used.append(L.DEFS[d])
            have |= syms(L.DEFS[d])[0]
            ch = True
        nr = []
        for ax in rest:
            if ax[0] <= have:
                used.append(ax[1])
                have |= syms(ax[1])[0]
                ch = True
            else:
                nr.append(ax)
        rest = nr
    return used


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backend = {'z3': 0, 'cvc5': 0}
        self.maxq = 0.0


STATS = Stats()
RATE = 3000000     # solver steps that count as a second
CONFIGS = [dict(), {'relevancy': 0}, {'arith.solver': 2}, {'random_seed': 7, 'phase_selection': 1}]


def z3check(fs, timeout, cfg=None, mbqi=False):
    s = SimpleSolver()
    s.set('rlimit', int(timeout * RATE))
    s.set('timeout', int(timeout * 4000))
    s.set('mbqi', mbqi)
    s.set('auto_config', False)
    for k, v in (cfg or {}).items():
        s.set(k, v)
    for f in fs:
        s.add(f)
    t = time.time()
    r = s.check()
    dt = time.time() - t
    STATS.queries += 1
    STATS.time += dt
    STATS.maxq = max(STATS.maxq, dt)
    return r, s


_pcache = {}
CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


def cvc5check(fs, timeout):
    s = Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + re.sub(r'\(set-info[^\n]*\n', '', txt)
    try:
        t = time.time()
        r = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-'], input=txt, capture_output=True, text=True,
                           timeout=timeout + 5)
        STATS.time += time.time() - t
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else 'error'
    except Exception:
        return 'timeout'


def negated(goal):
    """negation of the goal with its outer quantifiers replaced by constants (so that the indices are visible)"""
    out = []
    n = 0
    while True:
        goal = L.unfold(goal)
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [Const('sk%d_%d!0' % (goal.get_id(), k), goal.var_sort(k)) for k in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal):
            out.append(goal.arg(0))
            goal = goal.arg(1)
        else:
            break
    return out + [Not(goal)]


_gterm = {}


def gterms(f):
    """ground (mkw term, index) material of a formula"""
    k = f.get_id()
    r = _gterm.get(k)
    if r is not None:
        return r
    mk, sel, idx = {}, {}, {}
    st, vis = [f], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in vis:
            continue
        vis.add(i)
        if z3.is_app(x):
            d = x.decl()
            n = d.name()
            if n == 'mkw':
                mk[i] = x
            elif n == 'wat':
                idx[x.arg(1).get_id()] = x.arg(1)
            elif d.kind() == Z3_OP_SELECT and x.arg(1).sort() == I:
                sel[x.arg(1).get_id()] = x.arg(1)
            st.extend(x.children())
    r = (mk, sel, idx)
    _gterm[k] = r
    _keep.append(f)
    return r


_half = {}


def half(t):
    """t/2 when t is visibly an even linear term"""
    k = t.get_id()
    if k not in _half:
        _half[k] = _half_(simplify(t))
        _keep.append(t)
    return _half[k]


def _half_(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return IntVal(v // 2) if v % 2 == 0 else None
    if z3.is_add(t):
        xs = [_half_(x) for x in t.children()]
        return None if any(x is None for x in xs) else Sum(xs)
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        v = t.arg(0).as_long()
        if v % 2 == 0:
            return t.arg(1) if v == 2 else IntVal(v // 2) * t.arg(1)
    return None


def ground_words(fs):
    mk, sel, idx = {}, {}, {}
    for f in fs:
        a, b, c = gterms(f)
        mk.update(a)
        sel.update(b)
        idx.update(c)
    out = []
    if not mk:
        return out
    offs = {w.arg(1).get_id(): w.arg(1) for w in mk.values()}
    z = IntVal(0)
    offs[z.get_id()] = z
    for w in mk.values():
        r, o, n = w.arg(0), w.arg(1), w.arg(2)
        ids = {}
        for k in sel.values():
            # letters of one word are often copies of another word's: same index, other base
            for oo in offs.values():
                h = half(k - oo)
                if h is not None:
                    h = simplify(h)
                    ids[h.get_id()] = h
        for i in idx.values():
            ids[simplify(i).get_id()] = simplify(i)
        if len(ids) > 40:
            continue
        for i in ids.values():
            s = Select(r, simplify(o + 2 * i))
            out.append(Implies(And(0 <= i, i < n), L.wat(w, i) == L.m16(s)))
    return out


def prove(path, goal, timeout=5.0, tries=1, cvc5=False):
    goal = Z(goal) if isinstance(goal, int) else goal
    if z3.is_true(goal):
        return 'proved', 'trivial'
    g = simplify(goal)
    if z3.is_true(g):
        return 'proved', 'z3'
    have = set(f.get_id() for f in path)
    if all(c.get_id() in have for c in (goal.children() if z3.is_and(goal) else [goal])):
        return 'proved', 'assumed on the path'
    key = (tuple(sorted(set(f.get_id() for f in path))), goal.get_id())
    r = _pcache.get(key)
    if r is not None and (r[0] == 'proved' or r[2] >= (timeout, tries, cvc5)):
        return r[0], r[1]
    _keep.append((list(path), goal))
    fs = list(path) + negated(goal)
    fs += ground_words(fs)
    fs += axioms_for(fs)
    res = ('unknown', None)
    for n in range(tries):
        c, s = z3check(fs, timeout, CONFIGS[n % len(CONFIGS)])
        if c == unsat:
            res = ('proved', 'z3')
            break
        if c == sat:
            res = ('refuted', 'z3')
            break
    if res[0] != 'proved' and cvc5:
        if cvc5check(fs, timeout) == 'unsat':
            res = ('proved', 'cvc5')
    if res[0] == 'unknown':
        # conjuncts one by one
        hyps = negated(goal)
        last = hyps.pop().arg(0)
        if z3.is_and(last):
            _keep.append(hyps)
            rs = []
            for c in last.children():
                rs.append(prove(list(path) + hyps, c, timeout, tries, cvc5))
                if rs[-1][0] != 'proved':
                    break
            else:
                res = ('proved', rs[-1][1])
    _pcache[key] = (res[0], res[1], (timeout, tries, cvc5))
    return res


# ------------------------------------------------------------------ contracts
class Case:
    def __init__(self, kind, cond):
        self.kind, self.cond = kind, cond
        self.effects = []      # (op, sort, ptr, value)
        self.ens = []          # (name, lambda new, ret)
        self.ret = None
        self.may = False
        self.owns = []         # lambda new, ret -> obj terms owned afterwards by the caller
        self.frees = []        # obj terms

    def set(self, sort, ptr, val=None):
        self.effects.append(('set', sort, ptr, val))
        return self

    def row(self, obj):
        self.effects.append(('row', None, obj, None))
        return self

    def ensures(self, name, f):
        self.ens.append((name, f))
        return self

    def returns(self, v):
        self.ret = v
        return self


class Spec:
    """what a contract function builds for one call / one verified function"""

    def __init__(self, X, st, args, mode, name):
        self.X, self.st, self.args, self.mode, self.name = X, st, args, mode, name
        self.pre = []
        self.cases = []
        self.norm = Case('ret', None)
        self.bounds = []
        self.hints = []
        self.ghost = {}
        self.fn = None
        self.anyheap = False
        self.assumed = []
        self.next_before = st.g['next']
        self.readset = None
        self.limits = []
        self.normcond = None

    def apart(self, rep, ptr):
        """typed memory: an object's private data is not one of the objects that are passed"""
        if self.mode == 'def':
            for o in rep.owned(self.X, self.st, ptr):
                for a in self.args:
                    if isinstance(a, PB) and isinstance(o, Family):
                        self.st.assume(Or(L.okind(a.obj) != 0, Not(o.has(self.st.g['owner'], a.obj))))
                    elif isinstance(a, PB):
                        self.st.assume(Or(o == 0, L.okind(a.obj) != 0, o != a.obj))

    # pre-state access
    def get(self, sort, ptr, without=()):
        X = self.X
        if sort in X.reps_active and not isinstance(ptr, PE):
            rep = X.reps_active[sort]
            self.apart(rep, ptr)
            for n, f in rep.wf(X, self.st, ptr):
                if n in without:
                    continue
                self.pre.append(("%s of %s: %s" % (sort, self.name, n), f))
            return rep.view(X, self.st, ptr)
        v = X.load(self.st, sort, ptr, check=(self.mode == 'call'))
        inv = X.lib.invariants.get(sort)
        if inv:
            for n, f in inv(v):
                self.st.assume(f)
        return v

    def requires(self, name, f):
        self.pre.append((name, f))

    def reads(self, *ranges):
        """the function may read only these (object, from, to) bytes: its result is then a function of their content"""
        self.readset = list(self.readset or []) + list(ranges)

    def throws(self, exc, cond):
        c = Case(exc, cond)
        self.cases.append(c)
        return c

    def may_throw(self, exc, cond=None):
        c = Case(exc, cond if cond is not None else BoolVal(True))
        c.may = True
        self.cases.append(c)
        return c

    def set(self, sort, ptr, val=None):
        self.norm.set(sort, ptr, val)

    init = set

    def destroy(self, cls, ptr):
        self.norm.effects.append(('destroy', cls, ptr, None))

    def row(self, obj):
        self.norm.row(obj)

    def ensures(self, name, f):
        self.norm.ensures(name, f)

    def returns(self, v):
        self.norm.ret = v

    def returns_ref(self, sort, val):
        """a reference through which val is read"""
        if self.mode == 'call':
            self.norm.ret = PV(sort, val)
        else:
            X = self.X
            self.norm.ensures("the reference reads the specified value", lambda new, ret: L.eqv(sort, X.toz(sort, X.load(new.st, sort, ret, False)), val))

    def rerep(self, cls, ptr):
        """the representation of an object may change, its value does not"""
        X = self.X
        if cls in X.reps_active and not isinstance(ptr, PE):
            v = X.reps_active[cls].view(X, self.st, ptr)
            for e in self.norm.effects:         # (after a change of the same object: its new value)
                if e[0] == 'set' and e[1] == cls and isinstance(e[2], PB):
                    v = If(And(e[2].obj == ptr.obj, e[2].off == ptr.off), e[3], v)
            self.norm.effects.append(('set', cls, ptr, v))

    def moved(self, cls, ptr):
        """only destruction and assignment are possible afterwards"""
        self.norm.effects.append(('moved', cls, ptr, None))

    def get_any(self, sort, ptr):
        """a value that may be moved-from (destructors, targets of assignments)"""
        X = self.X
        if sort in X.reps_active and not isinstance(ptr, PE):
            rep = X.reps_active[sort]
            self.apart(rep, ptr)
            m = rep.movedfrom(X, self.st, ptr)
            for n, f in rep.wf(X, self.st, ptr):
                self.pre.append(("%s of %s: %s" % (sort, self.name, n), Or(m, f)))

    def finish(self):
        tc = [c.cond for c in self.cases if not c.may]
        self.norm.cond = self.normcond if self.normcond is not None else Not(Or(*tc)) if tc else BoolVal(True)
        return [self.norm] + self.cases


class Rep:
    """representation of a class inside its own member functions"""

    def __init__(self, name, fields, view, wf, owned, sort=None, eq=None, rowsorts=('i8', 'i16')):
        self.name, self.fields, self.view, self.wf, self.owned = name, fields, view, wf, owned
        self.sort = sort or name
        self.eq = eq
        self.rowsorts = rowsorts
        self.movedfrom = None


class Family:
    """objects of which there is one per index below a bound: part of what a representation owns"""

    def __init__(self, base, count, at, key, term=None):
        # at(i): object number i; base: the object holding the pointers; key: terms that determine the family; term(i): what to look for
        self.base, self.count, self.at, self.key, self.term = base, count, at, key, term or at

    def eq(self, o):
        return isinstance(o, Family) and len(self.key) == len(o.key) and all(a.eq(b) for a, b in zip(self.key, o.key))

    def idx(self, owner, o):
        """the index of o if it is one of them, by the ghost owner map of the time"""
        return L.PtrDT.pf(Select(owner, o))

    def has(self, owner, o):
        i = self.idx(owner, o)
        return And(o != 0, L.PtrDT.po(Select(owner, o)) == self.base, 0 <= i, i < self.count, self.at(i) == o)

    def all(self, f):
        i = fresh('fi', I)
        return ForAll([i], Implies(And(0 <= i, i < self.count), f(self.at(i))), patterns=[self.term(i)])

    def owners(self, owner):
        """what the owner map says"""
        i = fresh('fi', I)
        return ForAll([i], Implies(And(0 <= i, i < self.count), And(self.at(i) != 0, Select(owner, self.at(i)) == L.PtrDT.mkptr(self.base, i))), patterns=[self.term(i)])

    def distinct(self):
        i, j = fresh('fi', I), fresh('fj', I)
        return ForAll([i, j], Implies(And(0 <= i, i < j, j < self.count), self.at(i) != self.at(j)), patterns=[MultiPattern(self.term(i), self.term(j))])


def among(x, xs, owner):
    """x is one of the objects and families xs"""
    return [y.has(owner, x) if isinstance(y, Family) else x == y for y in xs]


class Lib:
    def __init__(self):
        self.contracts = {}       # normalised demangled name -> function(spec, *args)
        self.optional = set()
        self.handlers = []        # (matcher(comps, params, head), handler)
        self.exact = {}           # mangled/external name -> handler
        self.reps = {}
        self.hints = {}           # module -> [gen]
        self.invariants = {}
        self.assumed_used = set()


class Fail(Exception):
    pass


class PathEnd(Exception):
    pass


class Obl:
    __slots__ = ("name", "line", "ok", "backend", "fn", "kind", "detail", "secs")

    def __init__(self, name, line, fn, kind):
        self.name, self.line, self.fn, self.kind = name, line, fn, kind
        self.ok, self.backend, self.detail, self.secs = False, None, None, 0.0


EXC_PARENT = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
              'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
              'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
              'std::bad_alloc': 'std::exception', 'std::overflow_error': 'std::runtime_error', 'std::exception': None}


def derives(a, b):
    while a:
        if a == b:
            return True
        a = EXC_PARENT.get(a)
    return False


class Exec:
    def __init__(self, mod, dm, lib, fname, cname, contract, reps=(), opts=None):
        self.mod, self.dm, self.lib = mod, dm, lib
        self.fname, self.cname, self.contract = fname, cname, contract
        self.reps_active = {r: lib.reps[r] for r in reps}
        self.opts = dict(timeout=6.0, htimeout=1.5, tries=2, cvc5=True, maxpaths=4000, verbose=0)
        self.opts.update(opts or {})
        self.fn = mod.func(fname)
        self.loopinfo = {}
        self.used_contracts = set()
        self.used_assumed = set()
        self.deadline = None

    # ---------- basic
    def quick(self, st, cond, timeout=0.3):
        """is cond certainly true on this path (quantifier-free facts only)?"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c = simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fs = [f for f in st.path if not hasq(f)] + [Not(c)]
        key = (tuple(f.get_id() for f in fs[:-1]), c.get_id(), 'q')
        r = _pcache.get(key)
        if r is None:
            s = SimpleSolver()
            # effort counted in solver steps, so that a loaded machine decides alike
            s.set('rlimit', int(timeout * RATE))
            s.set('timeout', int(timeout * 10000))
            for f in fs:
                s.add(f)
            r = s.check() == unsat
            _pcache[key] = r
            _keep.append((fs, c))
        return r

    def feasible(self, st, cond):
        return not self.quick(st, Not(cond))

    def assume_range(self, st, w, t):
        if isc(t):
            return
        st.assume(And(t >= 0, t < IntVal(1 << w)) if True else None)

    def freshiv(self, st, w, name):
        if w == 1:
            return IV(1, b=fresh(name, BoolSort()))
        t = fresh(name, I)
        self.assume_range(st, w, t)
        return IV(w, u=t)

    def oblige(self, st, name, f, kind='safety', line=None):
        if isinstance(f, bool):
            f = BoolVal(f)
        f = pushneg(f)
        if z3.is_and(f):
            for n, x in enumerate(f.children()):
                self.oblige(st, name if len(f.children()) == 1 else "%s.%d" % (name, n + 1), x, kind, line)
            return
        if z3.is_true(f):
            return
        if line is None:
            line = self.curline
        if self.phase == 'final':
            o = Obl(name, line, self.cname, kind)
            t = time.time()
            r, be = prove(st.path, f, self.opts['timeout'], self.opts['tries'], self.opts['cvc5'])
            o.secs = time.time() - t
            o.ok = r == 'proved'
            o.backend = be
            if not o.ok:
                o.detail = "%s: %s" % (r, str(f)[:1500])
                if self.opts['verbose']:
                    print("   FAILED", self.cname, name, line, r, str(simplify(f))[:600])
                if self.opts.get('dump'):
                    self.dump(st, f, name)
            self.obls.append(o)
        # after the check the fact may be used (as in assert-then-assume)
        st.assume(f)

    def dump(self, st, f, name):
        s = Solver()
        fs = list(st.path) + negated(f)
        fs += ground_words(fs)
        for x in fs + axioms_for(fs):
            s.add(x)
        open("/tmp/dump_%s.smt2" % re.sub(r'\W', '_', name)[:60], "w").write("(set-logic ALL)\n" + s.to_smt2())

    # ---------- memory
    def memarr(self, st, sort):
        m = st.mem.get(sort)
        if m is None:
            m = Const('M0_' + cxx.sname(sort), ArraySort(I, ArraySort(I, zs(sort))))
            st.mem[sort] = m
        return m

    def tov(self, st, sort, t):
        if sort in ('i8', 'i16', 'i32', 'i64'):
            self.assume_range(st, int(sort[1:]), t)
            return IV(int(sort[1:]), u=t)
        if sort == 'ptr':
            o, f = PtrDT.po(t), PtrDT.pf(t)
            o2, f2 = simplify(o), simplify(f)
            st.assume(And(o2 >= 0, o2 < st.g['next']))
            if (f2 == 0).get_id() in st.seen:
                f2 = IntVal(0)
            return PB(o2, f2)
        return t

    def toz(self, sort, v):
        if sort in ('i8', 'i16', 'i32', 'i64'):
            if isinstance(v, IV):
                return v.u
            if isinstance(v, Undef):
                return fresh('undef', I)
            return Z(v)
        if sort == 'ptr':
            if isinstance(v, PB):
                return PtrDT.mkptr(v.obj, v.off)
            if isinstance(v, Undef):
                return fresh('undef', PtrDT)
            if z3.is_expr(v):
                return v
            raise VerifUnsupported("storing pointer %r in memory" % (v,))
        if isinstance(v, Undef):
            return fresh('undef', zs(sort))
        return v

    def addr(self, p):
        """(obj, off) of a base-like pointer"""
        if isinstance(p, PB):
            return p.obj, p.off
        if isinstance(p, PA):
            return IntVal(-p.id), IntVal(p.off)
        raise VerifUnsupported("address of %r" % (p,))

    def safe(self, st, p, n, what):
        """accessing n bytes at base pointer p is allowed"""
        o, f = p.obj, p.off
        if isc(o) and cv(o) < 0:
            sz = self.localsize[-cv(o)]
            self.oblige(st, "memory-safe %s" % what, And(f >= 0, f + n <= sz), 'memory')
            return
        self.oblige(st, "memory-safe %s" % what,
                    And(o != 0, Select(st.g['alive'], o), f >= 0, f + n <= L.osize(o)), 'memory')

    def limit(self, st, p, n):
        """reads of an argument's memory stay inside what the contract gives"""
        for o, a, b in (self.spec.limits if self.spec is not None else ()):
            if isinstance(p, PB) and not (isc(p.obj) and cv(p.obj) < 0):
                self.oblige(st, "nothing beyond the argument's end is read", Or(p.obj != o, And(p.off >= a, p.off + n <= b)), 'memory')

    def load(self, st, sort, p, check=True):
        if isinstance(sort, tuple) and sort[0] == 'rec' and not isinstance(p, PE):
            if (isinstance(p, PA) and (p.id, p.off) in st.cells and st.cells[(p.id, p.off)][0] == sort):
                return st.cells[(p.id, p.off)][1]
            return L.rmk(sort, [self.toz(f, self.load(st, f, self.padd(st, p, o), check)) for o, f in sort[1]])
        if sort in self.reps_active and not isinstance(p, PE):
            return self.reps_active[sort].view(self, st, p)
        if isinstance(p, PA):
            c = st.cells.get((p.id, p.off))
            if c is not None:
                if isinstance(c[0], str) and c[0].startswith('moved:') and sort == c[0][6:]:
                    self.oblige(st, "a moved-from %s is not used" % sort, BoolVal(False), 'memory')
                    return fresh('moved', zs(sort))
                if c[0] == sort:
                    return c[1]
                if c[0] in ('i8', 'i16', 'i32', 'i64') and sort in ('i8', 'i16', 'i32', 'i64'):
                    w = int(sort[1:])
                    if w < c[1].w:
                        return self.trunc(c[1], w)
                if isinstance(c[0], tuple) and c[0][0] == 'rec':
                    return self.sub(st, c[0], c[1], 0, sort)
                if isinstance(c[1], Ptr) and sort in ('i64',):
                    return c[1]
                if c[0] == 'i64' and sort == 'ptr' and isinstance(c[1], Ptr):
                    return c[1]
                raise VerifUnsupported("load %s from cell of %s" % (sort, c[0]))
            # inside a record cell
            for (i, o), (s, v) in st.cells.items():
                if i == p.id and isinstance(s, tuple) and s[0] == 'rec' and o <= p.off < o + cxx.size(s):
                    return self.sub(st, s, v, p.off - o, sort)
                if i == p.id and s == 'i64' and isinstance(v, IV) and o < p.off < o + 8 and sort in ('i8', 'i16', 'i32'):
                    w = int(sort[1:])
                    return self.trunc(self.lshr(v, 8 * (p.off - o)), w)
            for doff, n, snap, src in reversed(st.bg.get(p.id, ())):
                if doff <= p.off < doff + n:
                    v = self.load(snap, sort, self.padd(snap, src, p.off - doff), False)
                    for f in snap.path[len(st.path):]:
                        st.assume(f)
                    return v
            if self.opts.get('uninit', True) and sort not in ('i8', 'i16', 'i32', 'i64', 'ptr', 'f64'):
                if p.id not in self.external:
                    raise VerifUnsupported("read of unconstructed %s local at offset %d" % (sort, p.off))
            v = self.tov(st, sort, fresh('uninit', zs(sort)))
            st.cells[(p.id, p.off)] = (sort, v)
            return v
        if isinstance(p, PB):
            if check and sort in cxx.SIZES and sort != 'str':
                self.safe(st, p, cxx.SIZES[sort], "read")
                self.limit(st, p, IntVal(cxx.SIZES[sort]))
                if self.spec is not None and self.spec.readset is not None and not (isc(p.obj) and cv(p.obj) < 0):
                    self.oblige(st, "only what the result may depend on is read", Or(*[
                        And(p.obj == o, p.off >= a, p.off + cxx.SIZES[sort] <= b) for o, a, b in self.spec.readset]), 'post')
            t = simp_sel(Select(Select(self.memarr(st, sort), p.obj), p.off), st.seen)
            if sort == 'ptr' and isc(p.obj) and cv(p.obj) < 0:
                # a local array of pointers may hold addresses of locals
                return PB(simplify(PtrDT.po(t)), simplify(PtrDT.pf(t)))
            return self.tov(st, sort, t)
        if isinstance(p, PE):
            cval = self.load(st, p.cs, p.cont, check)
            if p.cs[0] == 'vec':
                if check:
                    self.oblige(st, "element exists", And(p.key >= 0, p.key < L.vlen(p.cs, cval)), 'memory')
                return self.sub(st, p.cs[1], L.vat(p.cs, cval, p.key), p.off, sort)
            if p.cs[0] == 'set':
                return self.sub(st, p.cs[1], p.key, p.off, sort)
            rs = cxx.mkrec([p.cs[1], p.cs[2]])
            vo = rs[1][1][0]
            if p.off < vo:
                return self.sub(st, p.cs[1], p.key, p.off, sort)
            return self.sub(st, p.cs[2], L.mget(p.cs, cval, p.key), p.off - vo, sort)
        if isinstance(p, PX) and sort == 'ptr':
            return PVT(p)
        if isinstance(p, PVT) and sort == 'ptr' and p.level == 0:
            return PVT(p.px, p.off, 1)
        if isinstance(p, PG):
            if p.name in ('stderr', 'stdout') and sort == 'ptr':
                return PB(Int('file_' + p.name), 0)
            return self.gload(st, sort, p)
        if isinstance(p, PV):
            return self.sub(st, p.sort, p.val, p.off, sort)
        if isinstance(p, PS):
            if sort != 'i8':
                raise VerifUnsupported("load %s from string" % (sort,))
            if check:
                self.oblige(st, "memory-safe read of string", And(p.off >= 0, p.off <= L.slen(p.s)), 'memory')
            t = If(p.off < L.slen(p.s), L.sbyte(p.s, p.off), IntVal(0))
            self.assume_range(st, 8, L.sbyte(p.s, p.off))
            return IV(8, u=t)
        raise VerifUnsupported("load %s from %r" % (sort, p))

    def sub(self, st, es, e, off, sort):
        """part of logical value e (sort es) at byte offset off"""
        if off == 0 and es == sort:
            return self.tov(st, sort, e)
        if isinstance(es, tuple) and es[0] == 'rec':
            for o, f in reversed(es[1]):
                if o <= off:
                    return self.sub(st, f, L.rget(es, e, o), off - o, sort)
        if es in ('i16', 'i32', 'i64') and sort in ('i8', 'i16', 'i32') and off == 0:
            return self.trunc(self.tov(st, es, e), int(sort[1:]))
        if isinstance(sort, tuple) and sort[0] == 'rec' and off == 0 and len(sort[1]) == 1 and sort[1][0][1] == es:
            return L.rmk(sort, [e])
        if es in ('i64', 'i32') and isinstance(sort, str) and sort in ('i64',):
            raise VerifUnsupported("load %s out of %s" % (sort, es))
        raise VerifUnsupported("load %s at %d out of %s" % (sort, off, cxx.sname(es)))

    def subupd(self, st, es, e, off, sort, val):
        if off == 0 and es == sort:
            return self.toz(sort, val)
        if isinstance(es, tuple) and es[0] == 'rec':
            vals = []
            done = False
            for n, (o, f) in enumerate(es[1]):
                nxt = es[1][n + 1][0] if n + 1 < len(es[1]) else 1 << 60
                x = L.rget(es, e, o)
                if o <= off < nxt:
                    x = self.subupd(st, f, x, off - o, sort, val)
                vals.append(x)
            return L.rmk(es, vals)
        raise VerifUnsupported("store %s at %d into %s" % (sort, off, cxx.sname(es)))

    def store(self, st, sort, p, v, check=True, frame=True):
        if isinstance(sort, tuple) and sort[0] == 'rec' and not isinstance(p, PE):
            for o, f in sort[1]:
                self.store(st, f, self.padd(st, p, o), self.tov(st, f, L.rget(sort, v, o)), check, frame)
            return
        if isinstance(p, PA):
            for (i, o) in list(st.cells):
                if i == p.id:
                    s = st.cells[(i, o)][0]
                    if isinstance(s, tuple) and s[0] == 'rec' and (o != p.off or s != sort) and o <= p.off < o + cxx.size(s):
                        rv = st.cells[(i, o)][1]
                        del st.cells[(i, o)]
                        for fo, fs in s[1]:
                            st.cells[(i, o + fo)] = (fs, self.tov(st, fs, L.rget(s, rv, fo)))
            st.cells[(p.id, p.off)] = (sort, v)
            st.writes.append(('cell', p.id, p.off, sort))
            if sort == 'ptr' and isinstance(v, PB) and self.external.get(p.id) == 'this' and p.off == 0 and self.isnull(v) is not True and self.quick(st, v.obj >= self.next0):
                # an object under construction takes possession of new memory (ghost)
                st.g['owner'] = Store(st.g['owner'], v.obj, PtrDT.mkptr(IntVal(-p.id), IntVal(0)))
                st.writes.append(('g', 'owner'))
            return
        if isinstance(p, PB):
            if check and sort in cxx.SIZES and sort != 'str':
                self.safe(st, p, cxx.SIZES[sort], "write")
            if frame:
                self.frame(st, sort, p.obj, p.off)
            if sort == 'ptr' and isinstance(v, PB) and not (isc(p.obj) and cv(p.obj) < 0) and not (isc(v.obj) and cv(v.obj) >= 0):
                if isc(v.obj) or not self.quick(st, v.obj >= 0):
                    raise VerifUnsupported("the address of a local is stored in other memory")
            m = self.memarr(st, sort)
            st.mem[sort] = Store(m, p.obj, Store(simp_sel(Select(m, p.obj), st.seen), p.off, self.toz(sort, v)))
            st.writes.append(('loc', sort, p.obj, p.off))
            return
        if isinstance(p, PE):
            cval = self.load(st, p.cs, p.cont, check)
            if p.cs[0] == 'vec':
                if check:
                    self.oblige(st, "element exists", And(p.key >= 0, p.key < L.vlen(p.cs, cval)), 'memory')
                e = self.subupd(st, p.cs[1], L.vat(p.cs, cval, p.key), p.off, sort, v)
                nv = L.vmk(p.cs, L.vlen(p.cs, cval), Store(L.vel(p.cs, cval), p.key, e))
            else:
                rs = cxx.mkrec([p.cs[1], p.cs[2]])
                vo = rs[1][1][0]
                if p.off < vo:
                    raise VerifUnsupported("store into map key")
                e = self.subupd(st, p.cs[2], L.mget(p.cs, cval, p.key), p.off - vo, sort, v)
                nv = L.mmk(p.cs, L.mdom(p.cs, cval), Store(L.mval(p.cs, cval), p.key, e))
            self.store(st, p.cs, p.cont, nv, check, frame)
            return
        raise VerifUnsupported("store %s to %r" % (sort, p))

    def setrow(self, st, sort, obj, row, frame=True):
        if frame:
            self.frame(st, sort, obj, None)
        st.mem[sort] = Store(self.memarr(st, sort), obj, row)
        st.writes.append(('row', sort, obj, None))

    def row(self, st, sort, obj):
        return simp_sel(Select(self.memarr(st, sort), obj), st.seen)

    def frame(self, st, sort, obj, off):
        if self.spec is None or self.spec.anyheap:
            return
        if isc(obj) and cv(obj) < 0:
            return
        alts = [obj >= self.next0]
        for m in self.modset:
            if m[0] == 'row':
                alts += among(obj, [m[1]], self.owner0)
            elif m[0] == 'loc' and off is not None and m[1] == sort:
                alts.append(And(obj == m[2], off == m[3]))
        if len(alts) == 1 and self.quick(st, alts[0]):
            return
        self.oblige(st, "frame: only allowed memory is written", Or(*alts), 'frame')

    # ---------- pointers
    def padd(self, st, p, k):
        if isinstance(k, int) and k == 0:
            return p
        if isinstance(p, PB):
            return PB(p.obj, zadd(p.off, k))
        if isinstance(p, PG):
            return PG(p.name, zadd(p.off, k))
        if isinstance(p, PS):
            return PS(p.s, zadd(p.off, k))
        if isc(k):
            k = cv(k)
            if isinstance(p, PA):
                return PA(p.id, p.off + k)
            if isinstance(p, PV):
                return PV(p.sort, p.val, p.off + k)
            if isinstance(p, PVT) and p.level == 0:
                return PVT(p.px, p.off + k)
            if isinstance(p, PE):
                if p.cs[0] == 'vec':
                    sz = cxx.size(p.cs[1])
                    q, r = divmod(p.off + k, sz)
                    return PE(p.cont, p.cs, zadd(p.key, q), r)
                return PE(p.cont, p.cs, p.key, p.off + k)
        raise VerifUnsupported("pointer arithmetic on %r by %s" % (p, k))

    def gep(self, st, ins, bt, vals):
        p = vals[0]
        m = self.mod
        terms = []
        const = 0
        ty = bt
        first = True
        for v in vals[1:]:
            if first:
                sz = m.layout(ty)[0]
                terms.append((sz, v))
                first = False
            else:
                rt = m.resolve(ty)
                if rt.k == 'st':
                    idx = v.cval()
                    _, _, fo = m.layout(ty)
                    const += fo[idx][0]
                    ty = fo[idx][1]
                elif rt.k == 'arr':
                    ty = rt.el
                    terms.append((m.layout(ty)[0], v))
                else:
                    raise VerifUnsupported("gep into %r" % (rt,))
        sym = []
        for sz, v in terms:
            if isinstance(v, Undef):
                raise VerifUnsupported("gep undef")
            if v.isconst():
                c = v.cval()
                if c >= 1 << (v.w - 1):
                    c -= 1 << v.w
                const += sz * c
            else:
                if v.w == 64 and (v._s is None or v._uonly):
                    if self.quick(st, v.u < IntVal(1 << 63)):
                        t = v.u
                    else:
                        t = v.s
                elif v._s is not None and v._u is None:
                    t = v._s
                else:
                    t = v.s if v.w < 64 else (v._s if v._s is not None else v.s)
                sym.append((sz, t))
        if isinstance(p, PE) and p.cs[0] == 'vec' and sym:
            es = cxx.size(p.cs[1])
            for sz, t in sym:
                if sz == es:
                    p = PE(p.cont, p.cs, zadd(p.key, t), p.off)
                elif sz % es == 0:
                    p = PE(p.cont, p.cs, zadd(p.key, zmul(t, sz // es)), p.off)
                else:
                    raise VerifUnsupported("gep stride on vector element")
        elif isinstance(p, PA) and sym:
            raise VerifUnsupported("symbolic offset into local")
        elif isinstance(p, IT) and (sym or const):
            raise VerifUnsupported("arithmetic on iterator node")
        else:
            for sz, t in sym:
                p = self.padd(st, p, zmul(t, sz))
        return self.padd(st, p, const)

    def ptr_eq(self, st, a, b):
        na, nb = self.isnull(a), self.isnull(b)
        if na is True and nb is True:
            return BoolVal(True)
        if na is True or nb is True:
            x = b if na is True else a
            if isinstance(x, PB):
                return x.obj == 0
            return BoolVal(False)
        if isinstance(a, PB) and isinstance(b, PB):
            return And(a.obj == b.obj, a.off == b.off) if not a.off.eq(b.off) else a.obj == b.obj
        if isinstance(a, PA) and isinstance(b, PA):
            return BoolVal(a.id == b.id and a.off == b.off)
        if isinstance(a, PE) and isinstance(b, PE) and a.cs == b.cs and same(a.cont, b.cont):
            if a.off != b.off:
                return BoolVal(False)
            return a.key == b.key
        if isinstance(a, IT) and isinstance(b, IT) and same(a.cont, b.cont):
            return a.rank == b.rank
        if isinstance(a, PG) and isinstance(b, PG):
            if a.name != b.name:
                return BoolVal(False)
            return a.off == b.off
        if isinstance(a, PV) or isinstance(b, PV):
            if same(a, b):
                return BoolVal(True)
            if isinstance(a, (PA, PG, PS)) or isinstance(b, (PA, PG, PS)):
                return BoolVal(False)
            # where the referenced object lives is not specified
            return fresh('samepl', BoolSort())
        if type(a) is not type(b) and isinstance(a, (PA, PG, PX, PS)) | isinstance(b, (PA, PG, PX, PS)):
            return BoolVal(False)
        raise VerifUnsupported("pointer comparison %r %r" % (a, b))

    def isnull(self, p):
        if isinstance(p, PB):
            if isc(p.obj):
                return cv(p.obj) == 0
            return None
        return False

    def ptr_off_diff(self, a, b):
        if isinstance(a, PB) and isinstance(b, PB):
            return a.off - b.off
        if isinstance(a, PE) and isinstance(b, PE) and a.cs == b.cs and same(a.cont, b.cont) and a.cs[0] == 'vec':
            return (a.key - b.key) * cxx.size(a.cs[1]) + (a.off - b.off)
        if isinstance(a, PG) and isinstance(b, PG) and a.name == b.name:
            return a.off - b.off
        if isinstance(a, PS) and isinstance(b, PS) and a.s.eq(b.s):
            return a.off - b.off
        if isinstance(a, PA) and isinstance(b, PA) and a.id == b.id:
            return IntVal(a.off - b.off)
        raise VerifUnsupported("pointer difference %r %r" % (a, b))

    # ---------- constant globals
    def ginit(self, name):
        c = self.gcache.get(name)
        if c is not None:
            return c
        g = self.mod.glob(name)
        if g is None or g[0] != 'g' or g[2] is None:
            raise VerifUnsupported("global %s" % name)
        out = {}

        def walk(o, ty, off):
            rt = self.mod.resolve(ty)
            if o.k == 'zero' or o.k == 'undef':
                if rt.k == 'i':
                    out[off] = (rt.w, 0)
                elif rt.k == 'arr':
                    s = self.mod.layout(rt.el)[0]
                    for n in range(rt.n):
                        walk(o, rt.el, off + n * s)
                elif rt.k == 'st':
                    for fo, ft in self.mod.layout(ty)[2]:
                        walk(o, ft, off + fo)
                elif rt.k == 'ptr':
                    out[off] = ('ptr', NULL)
                elif rt.k == 'double':
                    out[off] = ('f64', 0.0)
            elif o.k == 'int':
                out[off] = (rt.w, o.v % (1 << rt.w))
            elif o.k == 'str':
                for n, b in enumerate(o.v):
                    out[off + n] = (8, b)
            elif o.k == 'agg':
                if rt.k == 'arr':
                    s = self.mod.layout(rt.el)[0]
                    for n, x in enumerate(o.v):
                        walk(x, rt.el, off + n * s)
                else:
                    lay = self.mod.layout(x_ty(o, ty))[2] if False else self.mod.layout(ty)[2]
                    for (fo, ft), x in zip(lay, o.v):
                        walk(x, ft, off + fo)
            elif o.k in ('glob', 'gep', 'null'):
                out[off] = ('ptr', self.constop(o))
            elif o.k == 'float':
                out[off] = ('f64', o.v)
            else:
                raise VerifUnsupported("initialiser " + o.k)
        walk(g[2], g[1], 0)
        self.gcache[name] = (out, g[3] or self.mod.unwritten(name), self.mod.layout(g[1])[0])
        return self.gcache[name]

    def gload(self, st, sort, p):
        if p.name in ('stderr', 'stdout') and sort == 'ptr':
            return PG('stream ' + p.name, 0)
        out, const, size = self.ginit(p.name)
        if not const:
            raise VerifUnsupported("load of mutable global " + p.name)
        n = cxx.SIZES.get(sort)
        if n is None:
            raise VerifUnsupported("load %s from global %s" % (sort, p.name))
        if isc(p.off):
            o = cv(p.off)
            self.oblige(st, "memory-safe read of constant", BoolVal(0 <= o and o + n <= size), 'memory')
            e = out.get(o)
            if e is None:
                raise VerifUnsupported("constant layout")
            if e[0] == 'ptr':
                return e[1]
            if e[0] == 'f64':
                return RealVal(e[1])
            if e[0] == 8 * n:
                return IV.const(8 * n, e[1])
            if e[0] > 8 * n:
                return IV.const(8 * n, e[1])
            v = 0
            sh = 0
            while sh < 8 * n:
                w, x = out[o + sh // 8]
                v |= x << sh
                sh += w
            return IV.const(8 * n, v)
        self.oblige(st, "memory-safe read of constant", And(p.off >= 0, p.off + n <= size), 'memory')
        if not all(e[0] == 8 * n for e in out.values()):
            raise VerifUnsupported("mixed constant table")
        f = Function('glob_' + re.sub(r'\W', '_', p.name), I, I)
        nm = f.name()
        if not any(a[2] == nm for a in L.AXIOMS):
            k = Int('k')
            items = sorted(out.items())
            L.axiom(nm, [nm], And(*[f(IntVal(o)) == e[1] for o, e in items]))
            vals = set(e[1] for _, e in items)
            L.axiom(nm, [nm], ForAll([k], And(f(k) >= 0, f(k) < IntVal(1 << (8 * n))), patterns=[f(k)]))
            if len(items) <= 64:
                L.axiom(nm, [nm], ForAll([k], Implies(And(k >= 0, k < size, k % n == 0), Or(*[And(k == o, f(k) == e[1]) for o, e in items])), patterns=[f(k)]))
        return IV(8 * n, u=f(p.off))

    def gstr(self, p):
        """C string literal behind a constant global"""
        out, const, size = self.ginit(p.name)
        o = cv(p.off)
        bs = bytearray()
        while out[o][1] != 0:
            bs.append(out[o][1])
            o += 1
        return L.strlit(bytes(bs))

    def cstrof(self, st, p):
        """logical content of the C string at p"""
        if isinstance(p, PS):
            if isc(p.off) and cv(p.off) == 0:
                return p.s
            raise VerifUnsupported("interior string pointer")
        if isinstance(p, PG):
            return self.gstr(p)
        if isinstance(p, PB):
            return L.cstr(self.row(st, 'i8', p.obj), p.off)
        raise VerifUnsupported("C string at %r" % (p,))

    # ---------- ints
    def trunc(self, v, w):
        if v.isconst():
            return IV.const(w, v.cval())
        if w == 1:
            return IV(1, b=v.b)
        t = _ztrunc.get((v.u.get_id(), w))
        if t is not None:
            return IV(w, u=t[1])
        return IV(w, u=v.u % IntVal(1 << w))

    def lshr(self, v, k):
        if v.isconst():
            return IV.const(v.w, v.cval() >> k)
        return IV(v.w, u=v.u / IntVal(1 << k))

    def wrapu(self, st, t, w, lo_ok=False, hi=1):
        """t (integer) reduced to [0, 2^w); t known in (-2^w, 2^(w+1)) when hi==1"""
        if isc(t):
            return IntVal(cv(t) % (1 << w))
        m = IntVal(1 << w)
        if self.quick(st, And(t >= 0, t < m)):
            return t
        if hi == 1:
            return If(t >= m, t - m, If(t < 0, t + m, t))
        return t % m

    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.freshiv(st, w, 'undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # ptrtoint differences
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                return IV(64, s=simplify(self.ptr_off_diff(a, b)))
            raise VerifUnsupported("integer operation on pointer")
        if w == 1:
            A, Bb = a.b, b.b
            f = {'and': And, 'or': Or}.get(op)
            if f:
                return IV(1, b=f(A, Bb))
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(Bb):
                    return IV(1, b=Not(A))
                return IV(1, b=Xor(A, Bb))
            if op == 'mul':
                return IV(1, b=And(A, Bb))
        if a.isconst() and b.isconst():
            x, y = a.cval(), b.cval()
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y,
                 'udiv': lambda: x // y, 'urem': lambda: x % y,
                 'sdiv': lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                 'srem': lambda: abs(sx) % abs(sy) * (1 if sx >= 0 else -1)}[op]
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                self.oblige(st, "no division by zero", BoolVal(False), 'memory')
                return self.freshiv(st, w, 'div')
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                rr = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op]
                if not (-(1 << (w - 1)) <= rr < (1 << (w - 1))):
                    self.oblige(st, "no signed overflow", BoolVal(False), 'memory')
            return IV.const(w, r())
        h = IntVal(1 << (w - 1))
        if op in ('add', 'sub', 'mul') and 'nsw' in flags:
            t = {'add': lambda: zadd(a.s, b.s), 'sub': lambda: a.s - b.s, 'mul': lambda: self.mul(st, a.s, b.s)}[op]()
            self.oblige(st, "no signed overflow in %s" % op, And(t >= -h, t < h), 'overflow')
            # stay unsigned-friendly when both operands are
            return IV(w, s=t, u=t if self.quick(st, t >= 0) else None)
        if op == 'add':
            if b.isconst() and b.cval() >> (w - 1):
                t = a.u - IntVal((1 << w) - b.cval())
            elif a.isconst() and a.cval() >> (w - 1):
                t = b.u - IntVal((1 << w) - a.cval())
            else:
                t = zadd(a.u, b.u)
            return IV(w, u=self.wrapu(st, t, w))
        if op == 'sub':
            return IV(w, u=self.wrapu(st, a.u - b.u, w))
        if op == 'mul':
            t = self.mul(st, a.u, b.u)
            return IV(w, u=self.wrapu(st, t, w, hi=2))
        if op in ('udiv', 'urem'):
            if not b.isconst():
                self.oblige(st, "no division by zero", b.u != 0, 'memory')
            if b.isconst() and b.cval() == 0:
                self.oblige(st, "no division by zero", BoolVal(False), 'memory')
            return IV(w, u=(a.u / b.u) if op == 'udiv' else (a.u % b.u))
        if op in ('sdiv', 'srem'):
            self.oblige(st, "no division by zero", b.s != 0, 'memory')
            x, y = a.s, b.s
            if b.isconst() and cv(b.s) > 0:
                q = If(x >= 0, x / y, -((-x) / y))
            else:
                q = If(x >= 0, If(y > 0, x / y, -(x / (-y))), If(y > 0, -((-x) / y), (-x) / (-y)))
            r = q if op == 'sdiv' else x - y * q
            if self.quick(st, And(x >= 0, y > 0)):
                r = x / y if op == 'sdiv' else x % y
            return IV(w, s=r)
        if op == 'shl' and b.isconst():
            k = b.cval()
            return IV(w, u=self.wrapu(st, a.u * IntVal(1 << k), w, hi=2))
        if op == 'lshr' and b.isconst():
            return IV(w, u=a.u / IntVal(1 << b.cval()))
        if op == 'ashr' and b.isconst():
            x = a.s
            return IV(w, s=x / IntVal(1 << b.cval()))
        if op == 'and':
            c, v = (b, a) if b.isconst() else (a, b) if a.isconst() else (None, None)
            if c is not None:
                m = c.cval()
                if m == 0:
                    return IV.const(w, 0)
                if (m + 1) & m == 0:
                    if self.quick(st, v.u <= m):
                        return v
                    return IV(w, u=v.u % IntVal(m + 1))
                # mask of a run of bits lo..hi
                lo = (m & -m).bit_length() - 1
                if ((m >> lo) + 1) & (m >> lo) == 0:
                    return IV(w, u=((v.u / IntVal(1 << lo)) % IntVal((m >> lo) + 1)) * IntVal(1 << lo))
        f = Function('bit_%s_%d' % (op, w), I, I, I)
        if op == 'or':
            # disjoint bits: a*2^k | b
            for x, y in ((a, b), (b, a)):
                ks = [8, 16, 32]
                if z3.is_mul(x.u) and isc(x.u.arg(0)) and cv(x.u.arg(0)) > 1 and cv(x.u.arg(0)) & (cv(x.u.arg(0)) - 1) == 0:
                    ks = [cv(x.u.arg(0)).bit_length() - 1]
                elif z3.is_mul(x.u) and isc(x.u.arg(1)) and cv(x.u.arg(1)) > 1 and cv(x.u.arg(1)) & (cv(x.u.arg(1)) - 1) == 0:
                    ks = [cv(x.u.arg(1)).bit_length() - 1]
                for k in ks:
                    if k < w and self.quick(st, And(x.u % IntVal(1 << k) == 0, y.u < IntVal(1 << k))):
                        return IV(w, u=x.u + y.u)
        x, y = a.u, b.u
        if op in ('and', 'or', 'xor') and x.get_id() > y.get_id():
            x, y = y, x
        r = f(x, y)
        st.assume(And(r >= 0, r < IntVal(1 << w)))
        if op == 'and':
            st.assume(And(r <= x, r <= y))
        if op == 'or':
            st.assume(And(r >= x, r >= y, r <= x + y))
        return IV(w, u=r)

    def mul(self, st, x, y):
        if isc(x) or isc(y):
            return zmul(x, y)
        return x * y

    def icmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return IV(1, b=fresh('undef', BoolSort()))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, IV):
                a = NULL if a.isconst() and a.cval() == 0 else a
            if isinstance(b, IV):
                b = NULL if b.isconst() and b.cval() == 0 else b
            if isinstance(a, IV) or isinstance(b, IV):
                p, n = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(p, PB) and pred in ('eq', 'ne') and n.isconst():
                    # e.g. MAP_FAILED
                    e = And(p.obj == 0, p.off == cv(n.s))
                    return IV(1, b=e if pred == 'eq' else Not(e))
                raise VerifUnsupported("pointer/integer comparison")
            if self.spec is not None and self.spec.readset is not None and not (
                    isinstance(a, PB) and isinstance(b, PB) and a.obj.eq(b.obj)) and not (isinstance(a, PG) and isinstance(b, PG)):
                raise VerifUnsupported("comparison of addresses in a function of contents")
            if pred in ('eq', 'ne'):
                e = self.ptr_eq(st, a, b)
                return IV(1, b=e if pred == 'eq' else Not(e))
            d = self.ptr_off_diff(a, b)
            return IV(1, b={'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred])
        if a.w == 1:
            x, y = a.b, b.b
            if pred == 'eq':
                return IV(1, b=x == y)
            if pred == 'ne':
                return IV(1, b=x != y)
        if pred in ('eq', 'ne'):
            if a._s is not None and b._s is not None and (a._u is None or b._u is None):
                e = a.s == b.s
            elif a._u is None and b.isconst():
                e = a.s == b.s
            elif b._u is None and a.isconst():
                e = a.s == b.s
            else:
                e = a.u == b.u
            return IV(1, b=e if pred == 'eq' else Not(e))
        if pred[0] == 'u':
            x, y = a.u, b.u
        else:
            x, y = a.s, b.s
        e = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        if isc(x) and isc(y):
            e = simplify(e)
        return IV(1, b=e)

    # ---------- operands
    def constop(self, o):
        ty = o.ty
        if o.k == 'int':
            return IV.const(ty.w, o.v)
        if o.k == 'null':
            return NULL
        if o.k == 'glob':
            return PG(o.v, 0)
        if o.k == 'undef':
            return UND
        if o.k == 'zero':
            if ty.k == 'i':
                return IV.const(ty.w, 0)
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'double':
                return RealVal(0)
            if ty.k == 'st':
                return [self.constop(irparse.Opd(t, 'zero', 0)) for t in ty.fs]
            return [self.constop(irparse.Opd(ty.el, 'zero', 0)) for _ in range(ty.n)]
        if o.k == 'float':
            return fpconst(o.v)
        if o.k == 'gep':
            bt, ops = o.v
            return self.gep(None, None, bt, [self.constop(x) for x in ops])
        if o.k == 'cast':
            v = self.constop(o.v[1])
            if o.ty.k == 'ptr' and isinstance(v, IV):
                # (an address no object has)
                return PB(0, v.cval() - 2**v.w if v.cval() >= 2**(v.w - 1) else v.cval()) if v.cval() else NULL
            return v
        if o.k == 'agg':
            return [self.constop(x) for x in o.v]
        raise VerifUnsupported("constant " + o.k)

    def val(self, env, o):
        if o.k == 'reg':
            try:
                return env[o.v]
            except KeyError:
                raise VerifUnsupported("undefined register %" + o.v)
        return self.constop(o)

    def sortof(self, ty):
        rt = self.mod.resolve(ty)
        if rt.k == 'i':
            return 'i8' if rt.w == 1 else 'i%d' % rt.w
        if rt.k == 'ptr':
            return 'ptr'
        if rt.k == 'double':
            return 'f64'
        if rt.k == 'st' and len(rt.fs) == 1:
            return self.sortof(rt.fs[0])
        raise VerifUnsupported("memory access of type %r" % (ty,))

    def freshptr(self, st, name):
        o, f = fresh(name + '.o', I), fresh(name + '.f', I)
        st.assume(And(o >= 0, o < st.g['next'], f >= 0))
        return PB(o, f)

    # ---------- allocation
    def alloc(self, st, size, kind):
        o = fresh('obj', I)
        nx = st.g['next']
        st.assume(o == nx)
        st.assume(o > 0)
        st.g['next'] = o + 1
        st.g['alive'] = Store(st.g['alive'], o, True)
        st.assume(L.osize(o) == size)
        st.assume(L.akind(o) == kind)
        st.assume(L.okind(o) == (1 if kind == 2 else 0))
        st.writes.append(('g', 'alive'))
        st.writes.append(('g', 'next'))
        return PB(o, 0)

    def dealloc(self, st, p, kind, line=None):
        if isinstance(p, PB):
            if self.isnull(p) is True:
                return
            self.oblige(st, "release of owned memory, once, by the matching operation",
                        Or(p.obj == 0, And(Select(st.g['alive'], p.obj), p.off == 0, L.akind(p.obj) == kind)), 'release')
            self.oblige(st, "release: only owned memory is released", Or(p.obj == 0, p.obj >= self.next0,
                                                                        *among(p.obj, self.mayfree, self.owner0)), 'frame')
            st.g['alive'] = Store(st.g['alive'], p.obj, False)
            st.writes.append(('g', 'alive'))
            return
        raise VerifUnsupported("release of %r" % (p,))

    # ---------- control flow structure
    def cfg(self):
        fn = self.fn
        succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            succ[b] = list(t.x.get('to') or []) if t.op in ('br', 'switch', 'invoke') else []
        self.succ = succ
        # dominators via DFS back edges (reducible CFGs)
        order = []
        seen = set()
        back = []
        stack = [(fn.order[0], iter(succ[fn.order[0]]))]
        onst = {fn.order[0]}
        seen.add(fn.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                stack.pop()
                onst.discard(b)
                order.append(b)
        pred = {}
        for b in seen:
            for s in succ[b]:
                pred.setdefault(s, []).append(b)
        self.loops = {}
        for t, h in back:
            body = self.loops.setdefault(h, {h})
            st = [t]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred.get(x, []))
        self.backedges = set(back)

    # ---------- run
    def run(self):
        """returns list of obligations"""
        self.cfg()
        self.loopinfo = {h: LoopInfo(h) for h in self.loops}
        rounds = 0
        self.phase = 'houdini' if self.loops else 'final'
        while True:
            rounds += 1
            if rounds > 60:
                raise VerifUnsupported("loop analysis does not converge")
            self.changed = False
            self.once()
            if self.phase == 'final' and not self.changed:
                break
            if not self.changed:
                self.phase = 'final'
            else:
                self.phase = 'houdini' if self.loops else 'final'
        self.rounds = rounds
        # a function whose normal exit is never reached would meet every contract
        if any(c.kind == 'ret' and not (c.cond is not None and z3.is_false(simplify(c.cond))) for c in self.cases) and not self.alive.get('ret'):
            self.vac = True
        return self.obls

    def used(self, reg):
        """is the result in this register looked at?"""
        return any(getattr(o, 'k', None) == 'reg' and o.v == reg for b in self.fn.blocks.values() for i in b for o in (i.a or []))

    def once(self):
        L._c[0] = 0
        self.inl = None
        self.obls = []
        self.gcache = getattr(self, 'gcache', {})
        self.exits = {}
        self.alive = {}
        self.npaths = 0
        self.nalloca = 0
        self.external = {}
        self.localsize = {}
        self.curline = None
        self.spec = None
        self.modset = []
        self.mayfree = []
        fn = self.fn
        st = St()
        st.g['alive'] = Const('alive0', ArraySort(I, BoolSort()))
        st.g['next'] = Const('next0', I)
        st.g['owner'] = self.owner0 = Const('owner0', ArraySort(I, PtrDT))
        st.g['flen'] = Const('flen0', ArraySort(I, I))      # the length of each open file
        self.next0 = st.g['next']
        st.assume(self.next0 > 0)
        self.alive0 = st.g['alive']
        env = {}
        args = []
        isctor = is_ctor(self.cname)
        for n, (pn, ty, info) in enumerate(fn.params):
            rt = self.mod.resolve(ty)
            if rt.k == 'ptr':
                if 'sret' in info or (isctor and n == 0):
                    self.nalloca += 1
                    self.external[self.nalloca] = info.get('sret') or 'this'
                    v = PA(self.nalloca, 0)
                else:
                    o, f = Int('arg_%d.o' % n), Int('arg_%d.f' % n)
                    st.assume(And(o >= 0, o < self.next0, f >= 0))
                    if 'nonnull' in info or 'byval' in info:
                        st.assume(o > 0)
                        st.assume(Select(self.alive0, o))
                        st.assume(L.okind(o) == 0)
                    if info.get('deref'):
                        st.assume(f + info['deref'] <= L.osize(o))
                    v = PB(o, f)
            elif rt.k == 'i':
                if rt.w == 1:
                    v = IV(1, b=Bool('arg_%d' % n))
                else:
                    t = Int('arg_%d' % n)
                    self.assume_range(st, rt.w, t)
                    v = IV(rt.w, u=t)
            elif rt.k == 'double':
                v = Real('arg_%d' % n)
            else:
                raise VerifUnsupported("parameter type %r" % (ty,))
            env[pn] = v
            args.append(v)
        spec = Spec(self, st, args, 'def', self.cname)
        spec.fn = fn
        st0 = st
        self.contract(spec, *args)
        cases = spec.finish()
        for n, f in spec.pre:
            st.assume(f)
        for f in spec.assumed:
            st.assume(f)
        self.st0 = st.copy()
        self.cases = cases
        self.args = args
        # frame
        for c in cases:
            for op, sort, p, v in c.effects:
                self.addmod(st, op, sort, p)
            self.mayfree += c.frees
        self.spec = spec
        self.vac = None
        if self.phase == 'final':
            r, _ = z3check(list(st.path) + axioms_for(st.path), 2.0)
            self.vac = (r == unsat)
        st.writes = []
        self.stack = [(fn.order[0], None, env, st, None)]
        self.restart = False
        while self.stack and not self.restart:
            if self.deadline and time.time() > self.deadline:
                raise VerifUnsupported("time limit")
            b, prev, env, st, k = self.stack.pop()
            try:
                self.block(b, prev, env, st, k)
            except PathEnd:
                pass

    def addmod(self, st, op, sort, p):
        if op == 'row':
            self.modset.append(('row', p))
            return
        if isinstance(p, PE):
            return self.addmod(st, op, p.cs, p.cont)
        if sort in self.reps_active:
            rep = self.reps_active[sort]
            if isinstance(p, PB):
                for fs, fo in rep.fields:
                    self.modset.append(('loc', fs, p.obj, zadd(p.off, fo)))
                for o in rep.owned(self, st, p):
                    self.modset.append(('row', o))
                    self.mayfree.append(o)
            return
        if isinstance(p, PB):
            if isinstance(sort, tuple) and sort[0] == 'rec':
                for o, f in sort[1]:
                    self.modset.append(('loc', f, p.obj, zadd(p.off, o)))
            else:
                self.modset.append(('loc', sort, p.obj, p.off))

    def evalfn(self, fname, args, st):
        """executes a loop-free function here: [(state, result)] of its normal returns"""
        fn = self.mod.func(fname)
        if fn is None or len(fn.params) != len(args):
            raise VerifUnsupported("no body for " + fname)
        saved = (self.fn, self.succ, self.loops, self.backedges, self.stack, self.inl, self.curline)
        try:
            self.fn = fn
            self.cfg()
            if self.loops:
                raise VerifUnsupported("loop in " + fname)
            s = st.copy()
            s.loops = []
            self.inl = []
            self.stack = [(fn.order[0], None, {pn: a for (pn, _, _), a in zip(fn.params, args)}, s, None)]
            while self.stack:
                b, prev, env, s, k = self.stack.pop()
                try:
                    self.block(b, prev, env, s, k)
                except PathEnd:
                    pass
            return self.inl
        finally:
            (self.fn, self.succ, self.loops, self.backedges, self.stack, self.inl, self.curline) = saved

    # ---------- blocks
    def goto(self, frm, to, env, st):
        self.stack.append((to, frm, env, st, None))

    def steps(self, b, k, env, st):
        ins = self.fn.blocks[b]
        while k < len(ins):
            x = ins[k]
            l = self.mod.lineof(x)
            if l:
                self.curline = l
            if self.step(b, k, x, env, st) == 'end':
                return
            k += 1

    def block(self, b, prev, env, st, k=None):
        fn = self.fn
        ins = fn.blocks[b]
        if k is not None:
            return self.steps(b, k, env, st)
        # leave loops
        st.loops = [l for l in st.loops if b in self.loops[l['h']]]
        phis = [x for x in ins if x.op == 'phi']
        vals = {}
        for x in phis:
            for v, pb in x.x['inc']:
                if pb == prev:
                    vals[x.res] = self.val(env, v)
                    break
            else:
                raise VerifUnsupported("phi without predecessor")
        ur = [l for l in st.loops if l['h'] == b and l.get('unroll') is not None]
        if b in self.loops and (ur or (prev, b) not in self.backedges) and self.consttrip(b, phis, vals, env, st):
            if not ur:
                st.loops = st.loops + [dict(h=b, unroll=0)]
            elif ur[-1]['unroll'] > 64:
                # too long to execute: by invariant, in the next round
                self.loopinfo[b].abstract = True
                self.changed = True
                self.restart = True
                raise PathEnd
            else:
                st.loops = [l for l in st.loops if l is not ur[-1]] + [dict(h=b, unroll=ur[-1]['unroll'] + 1)]
        elif b in self.loops:
            if ur:
                raise VerifUnsupported("constant loop loses its constant")
            if (prev, b) in self.backedges:
                self.backedge(b, phis, vals, env, st)
                return
            env = dict(env)
            vals = self.loopentry(b, phis, vals, env, st)
        if phis:
            env = dict(env)
            env.update(vals)
        else:
            env = dict(env)
        self.steps(b, len(phis), env, st)

    # ---------- loops
    def consttrip(self, h, phis, vals, env, st):
        """the loop's exit test compares a constant loop variable with a constant: it is executed, not abstracted"""
        ins = self.fn.blocks[h]
        if self.loopinfo[h].abstract:
            return False
        br = ins[-1]
        if br.op != 'br' or len(br.x['to']) != 2:
            return False
        body = self.loops[h]
        if all(t in body for t in br.x['to']):
            return False
        defs = {i.res: i for i in ins if i.res}

        def const(o, d=0):
            if o.k == 'int':
                return True
            if o.k != 'reg' or d > 5:
                return False
            if o.v in vals:
                v = vals[o.v]
                return isinstance(v, IV) and v.isconst()
            i = defs.get(o.v)
            if i is None:
                v = env.get(o.v)
                return isinstance(v, IV) and v.isconst()
            if i.op in ('zext', 'sext', 'trunc', 'add', 'sub', 'icmp', 'freeze'):
                return all(const(a, d + 1) for a in i.a)
            if i.op == 'load':
                v = lookup(i)
                return isinstance(v, IV) and v.isconst()
            return False

        def lookup(i):
            # a constant read from a local
            e = dict(env)
            e.update(vals)
            s = st.copy()
            try:
                for j in ins:
                    if j is i:
                        w = self.mod.resolve(j.ty)
                        return self.load(s, 'i%d' % w.w, self.val(e, j.a[0]), False) if w.k == 'i' else None
                    if j.op in ('getelementptr', 'zext', 'sext', 'add', 'sub'):
                        self.step(h, 0, j, e, s)
                    elif j.op == 'load':
                        w = self.mod.resolve(j.ty)
                        e[j.res] = self.load(s, 'i%d' % w.w, self.val(e, j.a[0]), False)
            except (VerifUnsupported, KeyError, AttributeError):
                return None
        return br.a[0].k == 'reg' and br.a[0].v in defs and const(br.a[0]) and any(
            x.res in vals and isinstance(vals[x.res], IV) and vals[x.res].isconst() for x in phis)

    def fact_phi(self, st, n, x, v, li, h):
        """havocked phi value"""
        ty = self.mod.resolve(x.ty)
        nm = "%s@%s" % (x.res, h)
        if isinstance(v, IV):
            return self.freshiv(st, v.w, nm)
        if isinstance(v, PB):
            if self.isnull(v) is True and x.res not in li.phivar and x.res not in li.phivarkind:
                # stays null until shown otherwise
                pass
            if x.res in li.phivarkind:
                return li.phivarkind[x.res](st)
            if x.res in li.phivar and isc(v.obj) and cv(v.obj) < 0:
                raise VerifUnsupported("loop pointer to different locals")
            obj = fresh(nm + '.o', I) if x.res in li.phivar else v.obj
            off = fresh(nm + '.f', I) if x.res in li.phioff else v.off
            if x.res in li.phivar:
                st.assume(And(obj >= 0, obj < st.g['next']))
            return PB(obj, off)
        if isinstance(v, PE):
            if v.cs[0] == 'vec':
                return PE(v.cont, v.cs, fresh(nm + '.i', I) if x.res in li.phioff else v.key, v.off)
            if x.res in li.phioff:
                return PE(v.cont, v.cs, fresh(nm + '.k', zs(v.cs[1])), v.off)
            return v
        if isinstance(v, IT):
            if x.res in li.phioff:
                return IT(v.cont, v.cs, fresh(nm + '.r', I))
            return v
        if isinstance(v, (PG, PS)):
            if x.res in li.phioff:
                off = fresh(nm + '.f', I)
                return PG(v.name, off) if isinstance(v, PG) else PS(v.s, off)
            return v
        if isinstance(v, Undef):
            if ty.k == 'i':
                return self.freshiv(st, ty.w, nm)
            if ty.k == 'ptr':
                return UND if x.res not in li.phivar else self.freshptr(st, nm)
        if z3.is_expr(v):
            return fresh(nm, v.sort())
        if isinstance(v, (PA, PV)):
            return v
        raise VerifUnsupported("loop variable %r" % (v,))

    def loopentry(self, h, phis, vals, env, st):
        li = self.loopinfo[h]
        st_e = st.copy()
        lc = LoopCtx(self, h, phis, dict(vals), st_e, env)
        cands = [(n, f) for n, f in self.candidates(lc) if n not in li.dead]
        # initial values
        S = LoopSt(lc, vals, st)
        for n, f in list(cands):
            g = self.evalc(f, S)
            if g is None or not self.candcheck(st, n, g, li, 'holds on entry'):
                cands = [c for c in cands if c[0] != n]
        # havoc
        m = L.mark()
        nst = st
        for it in sorted(li.mod, key=str):
            self.havoc(nst, it)
        nv = {}
        for n, x in enumerate(phis):
            nv[x.res] = self.fact_phi(nst, n, x, vals[x.res], li, h)
        S = LoopSt(lc, nv, nst)
        for n, f in cands:
            g = self.evalc(f, S)
            if g is not None:
                nst.assume(g)
        nst.loops = nst.loops + [dict(h=h, lc=lc, mark=m, w0=len(nst.writes), nv=nv, cands=cands, st=nst)]
        return nv

    def evalc(self, f, S):
        try:
            g = f(S)
        except (VerifUnsupported, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError) as e:
            if self.opts['verbose'] > 2:
                print("   no value:", type(e).__name__, e)
            return None
        if isinstance(g, bool):
            g = BoolVal(g)
        return g

    def candcheck(self, st, n, g, li, what):
        if self.phase == 'final':
            o = Obl("loop invariant %s %s" % (n, what), self.curline, self.cname, 'invariant')
            r, be = prove(st.path, g, self.opts['timeout'], self.opts['tries'], self.opts['cvc5'])
            o.ok = r == 'proved'
            o.backend = be
            if not o.ok:
                # drop and redo
                if self.opts['verbose'] > 1:
                    print("   drop late", li.h, n, what, r)
                    if self.opts.get('dumpc') and self.opts['dumpc'] in "%s %s %s" % (li.h, n, what):
                        self.dump(st, g, 'late_' + li.h + n + what)
                li.dead.add(n)
                self.changed = True
                return False
            self.obls.append(o)
            return True
        r, be = prove(st.path, g, max(self.opts['htimeout'], self.spec.ghost.get('htimeout', 0)), 1 if what == 'holds on entry' or n in getattr(self, 'autocands', ()) else self.spec.ghost.get('htries', 1))
        if r != 'proved':
            if self.opts['verbose'] > 1:
                print("   drop", li.h, n, what, r)
                if self.opts.get('dumpc') and self.opts['dumpc'] in "%s %s %s" % (li.h, n, what):
                    self.dump(st, g, 'cand_' + li.h + n + what)
            if n not in li.dead:
                li.dead.add(n)
                self.changed = True
            return False
        return True

    def backedge(self, h, phis, vals, env, st):
        li = self.loopinfo[h]
        rec = None
        for l in st.loops:
            if l['h'] == h:
                rec = l
        if rec is None:
            raise VerifUnsupported("irreducible loop")
        # what did the body modify?
        for w in st.writes[rec['w0']:]:
            for it in self.generalise(w, rec['mark'], li):
                if HK(it) not in li.mod:
                    li.add(it)
                    self.changed = True
        # pointer phis: which components vary?
        for x in phis:
            a, b = rec['nv'][x.res], vals[x.res]
            if isinstance(a, IV) or z3.is_expr(a) or (isinstance(a, (PA, PV)) and same(a, b)):
                continue
            if isinstance(a, PB) and isinstance(b, PB):
                if not a.obj.eq(b.obj) and not self.quick(st, a.obj == b.obj):
                    if isc(b.obj) and cv(b.obj) < 0:
                        raise VerifUnsupported("loop pointer to different locals")
                    if x.res not in li.phivar:
                        li.phivar.add(x.res)
                        self.changed = True
                if not a.off.eq(b.off) and x.res not in li.phioff:
                    li.phioff.add(x.res)
                    self.changed = True
            elif isinstance(a, PE) and isinstance(b, PE) and a.cs == b.cs and same(a.cont, b.cont) and a.off == b.off:
                if not a.key.eq(b.key) and x.res not in li.phioff:
                    li.phioff.add(x.res)
                    self.changed = True
            elif isinstance(a, IT) and isinstance(b, IT) and same(a.cont, b.cont):
                if not a.rank.eq(b.rank) and x.res not in li.phioff:
                    li.phioff.add(x.res)
                    self.changed = True
            elif isinstance(a, (PG, PS)) and type(a) is type(b):
                if not same(a, b) and x.res not in li.phioff:
                    li.phioff.add(x.res)
                    self.changed = True
            elif isinstance(a, Undef) and isinstance(b, PB):
                if x.res not in li.phivar:
                    li.phivar.add(x.res)
                    self.changed = True
            elif isinstance(a, Undef):
                pass
            else:
                raise VerifUnsupported("loop pointer changes kind: %r -> %r" % (a, b))
        S = LoopSt(rec['lc'], vals, st)
        for n, f in rec['cands']:
            if n in li.dead:
                continue
            g = self.evalc(f, S)
            if g is None:
                li.dead.add(n)
                self.changed = True
                continue
            self.candcheck(st, n, g, li, 'is preserved')
        if self.phase == 'final' and self.opts.get('smoke'):
            r, _ = z3check(list(st.path) + axioms_for(st.path), 1.0)
            print("   smoke: back to %s from %s: %s" % (h, self.curline, r))
        self.npaths += 1

    def generalise(self, w, m, li):
        def newer(t):
            return any(k > m for k in consts_no(t))
        if w[0] in ('cell', 'dead', 'cellrange'):
            return [w]
        if w[0] == 'g':
            return [w]
        if w[0] == 'all':
            return [w]
        if w[0] == 'loc':
            _, sort, o, f = w
            if newer(o):
                return [('all', sort)]
            if newer(f):
                return [('row', sort, o, None)]
            return [w]
        if w[0] == 'row':
            _, sort, o, _ = w
            if newer(o):
                return [('all', sort)]
            return [w]
        return [w]

    def havoc(self, st, it):
        st.writes.append(it)
        if it[0] == 'dead':
            st.cells.pop((it[1], it[2]), None)
        elif it[0] == 'cellrange':
            _, i, d, n = it
            for (a, o) in list(st.cells):
                if a == i and d <= o < d + n:
                    del st.cells[(a, o)]
            st.bg[i] = [x for x in st.bg.get(i, []) if not (x[0] >= d and x[0] < d + n)]
        elif it[0] == 'cell':
            _, i, o, sort = it
            c = st.cells.get((i, o))
            if c is None:
                return      # not constructed outside the loop
            v = c[1]
            if isinstance(v, (PE, IT, PA, PG, PS, PV)):
                st.cells[(i, o)] = (sort, self.havoc_ptr(st, v, i, o))
            else:
                st.cells[(i, o)] = (sort, self.tov(st, sort, fresh('hv', zs(sort))))
        elif it[0] == 'loc':
            _, sort, o, f = it
            mm = self.memarr(st, sort)
            st.mem[sort] = Store(mm, o, Store(simp_sel(Select(mm, o), st.seen), f, fresh('hv', zs(sort))))
        elif it[0] == 'row':
            _, sort, o, _ = it
            mm = self.memarr(st, sort)
            st.mem[sort] = Store(mm, o, fresh('hvrow', ArraySort(I, zs(sort))))
        elif it[0] == 'all':
            sort = it[1]
            st.mem[sort] = fresh('hvM_' + cxx.sname(sort), self.memarr(st, sort).sort())
        elif it[0] == 'g':
            n = it[1]
            old = st.g[n]
            st.g[n] = fresh('hv' + n, old.sort())
            if n == 'next':
                st.assume(st.g['next'] >= old)

    def havoc_ptr(self, st, v, i, o):
        if isinstance(v, IT):
            return IT(v.cont, v.cs, fresh('hvr', I))
        if isinstance(v, PE) and v.cs[0] == 'vec':
            return PE(v.cont, v.cs, fresh('hvi', I), v.off)
        if isinstance(v, PG):
            return PG(v.name, fresh('hvf', I))
        if isinstance(v, PS):
            return PS(v.s, fresh('hvf', I))
        if isinstance(v, PA):
            return v
        raise VerifUnsupported("havoc of %r" % (v,))

    def candidates(self, lc):
        out = []
        out += auto_hints(lc)
        if 'htries' in self.spec.ghost:
            self.autocands = getattr(self, 'autocands', set()) | set(n for n, f in out)
        for h in self.spec.hints:
            out += h(lc)
        seen = set()
        res = []
        for n, f in out:
            k = n
            j = 0
            while k in seen:
                j += 1
                k = "%s~%d" % (n, j)
            seen.add(k)
            res.append((k, f))
        return res

    # ---------- exits
    def leave(self, st, kind, ret, line):
        """normal ('ret') or exceptional exit: the contract's cases must hold"""
        if self.inl is not None:
            if kind != 'ret':
                raise VerifUnsupported("exception from an inlined function")
            self.inl.append((st, ret))
            return
        self.npaths += 1
        self.exits[kind] = self.exits.get(kind, 0) + 1
        if self.phase != 'final':
            return
        if self.npaths > self.opts['maxpaths']:
            raise VerifUnsupported("too many paths")
        # guard: is the exit reached under consistent assumptions?
        if not self.alive.get(kind) or self.opts.get('smoke'):
            r, _ = z3check(list(st.path) + axioms_for(st.path), 1.0)
            self.alive[kind] = self.alive.get(kind, False) or r != unsat
            if self.opts.get('smoke'):
                print("   smoke: exit %s line %s %s" % (kind, line, r))
        mine = [c for c in self.cases if (c.kind == kind if kind == 'ret' else (c.kind != 'ret' and derives(kind, c.kind)))]
        others = [c for c in self.cases if c not in mine and not c.may]
        lab = "returns" if kind == 'ret' else "throws " + kind
        if not mine:
            self.oblige(st, "no exit by %s" % kind, BoolVal(False), 'post', line)
            return
        if len(mine) > 1 or (mine[0].cond is not None and not z3.is_true(mine[0].cond)):
            self.oblige(st, "%s only when specified" % lab, Or(*[c.cond for c in mine]), 'post', line)
        for c in others:
            if c.kind != 'ret':
                self.oblige(st, "%s not when %s is specified" % (lab, c.kind), Not(c.cond), 'post', line)
        for c in mine:
            s = st
            if len(mine) > 1:
                s = st.copy()
                if not self.feasible(s, c.cond):
                    continue
                s.assume(c.cond)
            self.checkcase(s, c, ret, lab, line)

    def checkcase(self, st, c, ret, lab, line):
        new = Post(self, st)
        # ownership bookkeeping
        owned = []
        freed = []
        for op, sort, p, v in c.effects:
            if sort in self.reps_active and not isinstance(p, PE):
                rep = self.reps_active[sort]
                if op == 'set':
                    for o in rep.owned(self, st, p):
                        if isinstance(o, Family):
                            self.oblige(st, "%s: %s owns only what it may own" % (lab, sort), o.all(lambda x: Or(x >= self.next0, *among(x, self.mayfree, self.owner0))), 'frame', line)
                            self.oblige(st, "%s: %s owns different things" % (lab, sort), o.distinct(), 'frame', line)
                            ow = fresh('owner', ArraySort(I, PtrDT))
                            q = fresh('o', I)
                            old = st.g['owner']
                            st.assume(o.owners(ow))
                            owned.append(o)
                            st.assume(ForAll([q], Or(Select(ow, q) == Select(old, q), o.has(ow, q)), patterns=[Select(ow, q)]))
                            st.g['owner'] = ow
                            st.writes.append(('g', 'owner'))
                            continue
                        ad = self.addr(p)
                        self.oblige(st, "%s: %s owns only what it may own" % (lab, sort),
                                    Or(o == 0, o >= self.next0, *among(o, self.mayfree, self.owner0)), 'frame', line)
                        st.g['owner'] = Store(st.g['owner'], o, PtrDT.mkptr(ad[0], ad[1]))
                        st.writes.append(('g', 'owner'))
                        owned.append(o)
                if not (isinstance(p, PA)):
                    freed += rep.owned(self, self.st0, p)
        if c.kind != 'ret':
            # what the failing case does not mention keeps its value
            for op, sort, p, v in self.cases[0].effects:
                if op not in ('set', 'row') or isinstance(p, PA) or (op == 'row' and any(e[0] == 'row' and e[2].eq(p) for e in c.effects)):
                    continue
                if op == 'row':
                    for s in INTSORTS:
                        if s in st.mem and not st.mem[s].eq(self.memarr(self.st0, s)):
                            self.oblige(st, "%s: the buffer is unchanged" % lab, self.row(st, s, p) == self.row(self.st0, s, p), 'post', line)
                    continue
                if any(e[0] in ('set', 'moved') and e[1] == sort and same(e[2], p) for e in c.effects):
                    continue
                if sort in self.reps_active and not isinstance(p, PE):
                    rep = self.reps_active[sort]
                    if rep.movedfrom is not None and not self.quick(self.st0, Not(rep.movedfrom(self, self.st0, p))):
                        continue
                    self.oblige(st, "%s: %s is unchanged" % (lab, sort), (rep.eq or (lambda a, b: L.eqv(rep.sort, a, b)))(rep.view(self, st, p), rep.view(self, self.st0, p)), 'post', line)
                    for n, f in rep.wf(self, st, p):
                        self.oblige(st, "%s: %s stays well formed: %s" % (lab, sort, n), f, 'post', line)
                else:
                    a, b = self.toz(sort, self.load(st, sort, p, check=False)), self.toz(sort, self.load(self.st0, sort, p, check=False))
                    self.oblige(st, "%s: %s is unchanged" % (lab, cxx.sname(sort)), L.eqv(sort, a, b), 'post', line)
        for op, sort, p, v in c.effects:
            if op == 'destroy':
                continue
            if op == 'row':
                continue
            if op == 'moved':
                if sort in self.reps_active:
                    self.oblige(st, "%s: the moved-from %s owns nothing" % (lab, sort), self.reps_active[sort].movedfrom(self, st, p), 'post', line)
                continue
            if sort in self.reps_active and not isinstance(p, PE):
                rep = self.reps_active[sort]
                W = v if v is not None or not self.spec.ghost.get('witness') else self.spec.ghost['witness'](st, c, ret)
                if getattr(rep, 'link', None) and W is not None:
                    # a value the memory is linked with is the memory's view: it is the only one
                    for n, f in rep.raw(self, st, p) + rep.link(self, st, p, W):
                        self.oblige(st, "%s: %s stays well formed: %s" % (lab, sort, n), f, 'post', line)
                    st.assume(rep.view(self, st, p) == W)
                    continue
                if v is not None:
                    cur = rep.view(self, st, p)
                    self.oblige(st, "%s: new value of %s" % (lab, sort), (rep.eq or (lambda a, b: L.eqv(rep.sort, a, b)))(cur, v), 'post', line)
                    if sort == 'Word':
                        st.assume(cur == v)     # words are determined by their letters
                for n, f in rep.wf(self, st, p):
                    self.oblige(st, "%s: %s stays well formed: %s" % (lab, sort, n), f, 'post', line)
            else:
                cur = self.load(st, sort, p, check=False)
                if v is not None:
                    cz, vz = self.toz(sort, cur), self.toz(sort, v)
                    self.oblige(st, "%s: new value of %s" % (lab, cxx.sname(sort)), L.eqv(sort, cz, vz), 'post', line)
                inv = self.lib.invariants.get(sort)
        if c.ret is not None and ret is not None:
            self.oblige(st, "%s: result" % lab, self.veq(st, ret, c.ret), 'post', line)
        for n, f in c.ens:
            self.oblige(st, "%s: %s" % (lab, n), f(new, ret), 'post', line)
        for f in c.owns:
            owned += f(new, ret)
        freed += c.frees
        # every object acquired on this path is owned by someone or released; nothing else was released
        if self.spec.anyheap:
            return
        if st.g['alive'].eq(self.alive0) and not freed and not owned:
            return
        o = fresh('o', I)
        al = Select(L.nm(st.g['alive']), o)
        if not st.g['alive'].eq(self.alive0):
            self.oblige(st, "%s: everything acquired is owned or released" % lab,
                        ForAll([o], Implies(And(o >= self.next0, o < st.g['next'], al), Or(*among(o, owned, st.g['owner'])) if owned else BoolVal(False)),
                               patterns=[al]), 'leak', line)
            self.oblige(st, "%s: nothing else is released" % lab,
                        ForAll([o], Implies(And(o > 0, o < self.next0, Select(self.alive0, o), *[Not(f) for f in among(o, freed, self.owner0)]), al), patterns=[al]), 'leak', line)
        for x in freed:
            if any(x.eq(y) for y in owned if isinstance(x, Family) == isinstance(y, Family)):
                continue
            if isinstance(x, Family):
                self.oblige(st, "%s: what is no longer owned is released" % lab,
                            x.all(lambda z: Or(Not(Select(self.alive0, z)), Not(Select(st.g['alive'], z)), *among(z, owned, st.g['owner']))), 'leak', line)
                continue
            self.oblige(st, "%s: what is no longer owned is released" % lab,
                        Or(x == 0, Not(Select(self.alive0, x)), Not(Select(st.g['alive'], x)), *[x == y for y in owned]), 'leak', line)
        # locals of class type must have been destroyed
        for (i, of), (s, v) in st.cells.items():
            if i not in self.external and (s in ('str', 'Word') or (isinstance(s, tuple) and s[0] in ('vec', 'map', 'set')) or s in cxx.CLASS_SIZES):
                if s in cxx.CLASS_SIZES or s == 'str' or isinstance(s, tuple):
                    self.oblige(st, "%s: local %s is destroyed" % (lab, cxx.sname(s)), BoolVal(False), 'leak', line)

    def veq(self, st, a, b):
        """IR value a against specified value b"""
        if isinstance(b, IV):
            if b.w == 1:
                return a.b == b.b
            if b._u is None:
                return a.s == b.s
            return a.u == b.u
        if isinstance(b, Ptr):
            return self.ptr_eq(st, a, b)
        if z3.is_bool(b):
            return a.b == b
        if isinstance(a, IV):
            return a.u == b
        return a == b


class Post:
    """post-state view handed to ensures clauses"""

    def __init__(self, X, st):
        self.X, self.st = X, st

    def get(self, sort, p):
        return self.X.load(self.st, sort, p, check=False)


class LoopInfo:
    def __init__(self, h):
        self.h = h
        self.mod = set()
        self.dead = set()
        self.phivar = set()
        self.phioff = set()
        self.phivarkind = {}
        self.abstract = False

    def add(self, it):
        self.mod.add(HK(it))


class HK(tuple):
    """modification item hashable by structure"""
    def __new__(cls, it):
        return tuple.__new__(cls, it)

    def _k(self):
        return tuple(x.sexpr() if z3.is_expr(x) else x for x in self)

    def __hash__(self):
        return hash(self._k())

    def __eq__(self, o):
        return self._k() == HK._k(o)


def HKs(x):
    return HK(x)


class LoopCtx:
    def __init__(self, X, h, phis, entry, st, env):
        self.X, self.h, self.phis, self.entry, self.st, self.env = X, h, phis, entry, st, env
        self.spec = X.spec
        self.args = X.args

    def ints(self, minw=8):
        return [x.res for x in self.phis if isinstance(self.entry[x.res], IV) and self.entry[x.res].w >= minw]

    def outer(self, minw=8):
        """variables of the loops around this one"""
        return [(n, v) for l in self.st.loops if l['h'] != self.h for n, v in l['nv'].items() if isinstance(v, IV) and v.w >= minw]

    def bools(self):
        return [x.res for x in self.phis if isinstance(self.entry[x.res], IV) and self.entry[x.res].w == 1]

    def ptrs(self, kind=None):
        return [x.res for x in self.phis if isinstance(self.entry[x.res], kind or Ptr)]

    def icmps(self):
        """(phi name, other operand) pairs compared inside the loop"""
        fn = self.X.fn
        body = self.X.loops[self.h]
        defs = {}
        for b in body:
            for i in fn.blocks[b]:
                if i.res:
                    defs[i.res] = i
        names = set(x.res for x in self.phis)

        def root(o, d=0):
            if o.k != 'reg' or d > 6:
                return None
            if o.v in names:
                return o.v
            i = defs.get(o.v)
            if i is None:
                return None
            if i.op in ('zext', 'sext', 'trunc', 'freeze'):
                return root(i.a[0], d + 1)
            if i.op in ('add', 'sub') and i.a[1].k == 'int':
                return root(i.a[0], d + 1)
            if i.op == 'getelementptr' and all(a.k == 'int' for a in i.a[1:]):
                return root(i.a[0], d + 1)
            return None
        out = []
        for b in body:
            for i in fn.blocks[b]:
                if i.op == 'icmp':
                    for a, c in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                        r = root(a)
                        if r:
                            out.append((r, c, defs))
        return out


class LoopSt:
    """candidate evaluation point: current phi values and state"""

    def __init__(self, lc, vals, st):
        self.lc, self.vals, self.st = lc, vals, st
        self.X = lc.X

    def v(self, n):
        return self.vals[n]

    def load(self, sort, p):
        return self.X.load(self.st, sort, p, check=False)


def num(v, signed=False):
    """number standing for a loop variable"""
    if isinstance(v, IV):
        return v.s if signed else v.u
    if isinstance(v, PB):
        return v.off
    if isinstance(v, PE):
        return v.key
    if isinstance(v, IT):
        return v.rank
    if isinstance(v, (PG, PS)):
        return v.off
    raise VerifUnsupported("number")


def reval(S, o, defs, d=0):
    """value of an operand computed inside the loop, re-evaluated at a candidate point"""
    X = S.X
    if o.k != 'reg':
        return X.constop(o)
    if o.v in S.vals:
        return S.vals[o.v]
    if o.v in S.lc.env:
        return S.lc.env[o.v]
    i = defs.get(o.v)
    if i is None or d > 8:
        raise VerifUnsupported("not evaluable")
    a = [reval(S, x, defs, d + 1) for x in i.a]
    if i.op == 'load':
        return S.load(X.sortof(i.ty), a[0])
    if i.op == 'getelementptr':
        return X.gep(S.st, i, i.x['bt'], a)
    if i.op in ('zext', 'sext', 'trunc'):
        import steps
        return steps.cast(X, S.st, i.op, i, a[0])
    if i.op in ('add', 'sub') and not i.x['flags']:
        return X.binop(S.st, i.op, a[0], a[1], i.ty.w, ())
    if i.op in ('call', 'invoke'):
        d = X.dm.get(i.x['callee'], '')
        if d.endswith('::size() const') and d.startswith('std::vector<'):
            import steps, cxx
            cs = ('vec', cxx.ctype(steps.parsed(d)[0][-2][1][0]))
            return IV(64, u=L.vlen(cs, S.load(cs, a[0])))
        c = X.lib.contracts.get(d)
        if c is not None:
            import steps
            return steps.evalcontract(X, S.st, d, c, a, i.ty)
    raise VerifUnsupported("not evaluable")


def auto_hints(lc):
    X = lc.X
    out = []
    names = [x.res for x in lc.phis if isinstance(lc.entry[x.res], (IV, PB, PE, IT, PG, PS)) and not (
        isinstance(lc.entry[x.res], IV) and lc.entry[x.res].w == 1) and not (isinstance(lc.entry[x.res], PE) and lc.entry[x.res].cs[0] != 'vec')]
    for n in names:
        e = num(lc.entry[n])
        out.append(("%s>=init" % n, lambda S, n=n, e=e: num(S.v(n)) >= e))
        if not isinstance(lc.entry[n], IV) or not isc(e) or cv(e) != 0:
            out.append(("%s<=init" % n, lambda S, n=n, e=e: num(S.v(n)) <= e))
        v = lc.entry[n]
        if isinstance(v, IV) and not v.isconst():
            es = v.s
            out.append(("%s>=init signed" % n, lambda S, n=n, e=es: S.v(n).s >= e))
        if isinstance(v, IV) and v.w == 32:
            out.append(("%s nonneg int" % n, lambda S, n=n: S.v(n).u < IntVal(1 << 31)))
            out.append(("%s>=-1 int" % n, lambda S, n=n: S.v(n).s >= -1))
        if isinstance(v, PE):
            out.append(("%s<=len" % n, lambda S, n=n: num(S.v(n)) <= L.vlen(S.v(n).cs, S.load(S.v(n).cs, S.v(n).cont))))
        if isinstance(v, IT):
            out.append(("%s in range" % n, lambda S, n=n: And(S.v(n).rank >= 0, S.v(n).rank <= L.card(S.v(n).cs, S.load(S.v(n).cs, S.v(n).cont)))))
        if isinstance(v, PB):
            out.append(("%s fresh or init" % n, lambda S, n=n, v=v: Or(S.v(n).obj == v.obj, S.v(n).obj >= lc.st.g['next'])))
            out.append(("%s same obj" % n, lambda S, n=n, v=v: S.v(n).obj == v.obj))
            out.append(("%s off 0" % n, lambda S, n=n, v=v: S.v(n).off == 0))
    for a in range(len(names)):
        for b in range(a):
            x, y = names[a], names[b]
            ex, ey = num(lc.entry[x]), num(lc.entry[y])
            out.append(("%s-%s const" % (x, y), lambda S, x=x, y=y, ex=ex, ey=ey: num(S.v(x)) - num(S.v(y)) == ex - ey))
            out.append(("%s<=%s" % (x, y), lambda S, x=x, y=y: num(S.v(x)) <= num(S.v(y))))
            out.append(("%s<=%s" % (y, x), lambda S, x=x, y=y: num(S.v(y)) <= num(S.v(x))))
    # comparison bounds
    seen = set()
    for r, o, defs in lc.icmps():
        if o.k == 'reg' and o.v not in lc.env and o.v in defs and r in names and (r, o.v) not in seen and defs[o.v].op != 'phi':
            # a bound recomputed in the loop from memory that the loop may leave alone
            seen.add((r, o.v))
            for sg in (False, True):
                sfx = " signed" if sg else ""
                out.append(("%s<=%s%s" % (r, o.v, sfx), lambda S, r=r, o=o, sg=sg: num(S.v(r), sg) <= num(reval(S, o, defs), sg)))
                out.append(("%s>=%s%s" % (r, o.v, sfx), lambda S, r=r, o=o, sg=sg: num(S.v(r), sg) >= num(reval(S, o, defs), sg)))
                out.append(("%s<=%s+1%s" % (r, o.v, sfx), lambda S, r=r, o=o, sg=sg: num(S.v(r), sg) <= num(reval(S, o, defs), sg) + 1))
            continue
        if o.k == 'reg' and o.v in lc.env:
            bv = lc.env[o.v]
        elif o.k == 'int':
            bv = X.constop(o)
        else:
            continue
        if (r, str(o.v)) in seen or r not in names or not isinstance(bv, (IV, PB, PE, IT, PG, PS)):
            continue
        seen.add((r, str(o.v)))
        for sg in (False, True):
            try:
                t = num(bv, sg)
            except VerifUnsupported:
                continue
            if not isinstance(bv, IV) and sg:
                continue
            sfx = " signed" if sg else ""
            out.append(("%s<=%s%s" % (r, o.v, sfx), lambda S, r=r, t=t, sg=sg: num(S.v(r), sg) <= t))
            out.append(("%s>=%s%s" % (r, o.v, sfx), lambda S, r=r, t=t, sg=sg: num(S.v(r), sg) >= t))
            out.append(("%s<=%s+1%s" % (r, o.v, sfx), lambda S, r=r, t=t, sg=sg: num(S.v(r), sg) <= t + 1))
    for n in names:
        for k, f in lc.spec.bounds:
            out.append(("%s<=%s" % (n, k), lambda S, n=n, f=f: num(S.v(n)) <= f))
    # memory of objects that existed before
    li = X.loopinfo[lc.h]
    for it in li.mod:
        if it[0] == 'all':
            sort = it[1]
            M0 = X.memarr(lc.st, sort)
            o = fresh('fo', I)
            nx = lc.st.g['next']
            out.append(("frame-old %s" % cxx.sname(sort), lambda S, sort=sort, M0=M0, o=o: ForAll([o], Implies(And(o >= 0, o < X.next0), Select(X.memarr(S.st, sort), o) == Select(M0, o)), patterns=[Select(L.nm(X.memarr(S.st, sort)), o)])))
            out.append(("frame-entry %s" % cxx.sname(sort), lambda S, sort=sort, M0=M0, o=o, nx=nx: ForAll([o], Implies(And(o >= 0, o < nx), Select(X.memarr(S.st, sort), o) == Select(M0, o)), patterns=[Select(L.nm(X.memarr(S.st, sort)), o)])))
            mods = [m[1] for m in X.modset if m[0] == 'row']
            if mods:
                out.append(("frame-mod %s" % cxx.sname(sort), lambda S, sort=sort, M0=M0, o=o: ForAll([o], Implies(And(o >= 0, o < X.next0, *[o != m for m in mods]), Select(X.memarr(S.st, sort), o) == Select(M0, o)), patterns=[Select(L.nm(X.memarr(S.st, sort)), o)])))
        if it[0] == 'g' and it[1] == 'alive':
            o = fresh('fo', I)
            A0 = lc.st.g['alive']
            nx = lc.st.g['next']
            pn = [n for n in lc.ptrs(PB)]

            def ex(S, pn=pn):
                return [S.v(n).obj for n in pn]
            out.append(("alive-old", lambda S, o=o, A0=A0: ForAll([o], Implies(And(o >= 0, o < X.next0), Select(L.nm(S.st.g['alive']), o) == Select(A0, o)), patterns=[Select(L.nm(S.st.g['alive']), o)])))
            out.append(("alive-entry", lambda S, o=o, A0=A0, nx=nx: ForAll([o], Implies(And(o >= 0, o < nx), Select(L.nm(S.st.g['alive']), o) == Select(A0, o)), patterns=[Select(L.nm(S.st.g['alive']), o)])))
            out.append(("alive-new", lambda S, o=o, nx=nx: ForAll([o], Implies(And(o >= nx, o < S.st.g['next'], Select(L.nm(S.st.g['alive']), o)), Or(*[o == x for x in ex(S)]) if ex(S) else BoolVal(False)), patterns=[Select(L.nm(S.st.g['alive']), o)])))
            out.append(("alive-none", lambda S, o=o, nx=nx: ForAll([o], Implies(And(o >= nx, o < S.st.g['next']), Not(Select(L.nm(S.st.g['alive']), o))), patterns=[Select(L.nm(S.st.g['alive']), o)])))
            out.append(("alive-next", lambda S, o=o, A0=A0: ForAll([o], Implies(And(o >= S.st.g['next']), BoolVal(True)), patterns=[Select(L.nm(S.st.g['alive']), o)])))
            for n in pn:
                out.append(("alive %s" % n, lambda S, n=n: Or(S.v(n).obj == 0, And(Select(S.st.g['alive'], S.v(n).obj), S.v(n).off == 0))))
                for k in (1, 2, 3):
                    out.append(("akind %s %d" % (n, k), lambda S, n=n, k=k: Or(S.v(n).obj == 0, L.akind(S.v(n).obj) == k)))
                for x in names:
                    if isinstance(lc.entry[x], IV):
                        out.append(("size %s = %s" % (n, x), lambda S, n=n, x=x: Or(And(S.v(n).obj == 0, S.v(x).u == 0), And(S.v(n).obj != 0, L.osize(S.v(n).obj) == S.v(x).u))))
    return out


def pushneg(f):
    """conjunctions as near the top as possible, so that every conjunct is an obligation of its own"""
    while True:
        if z3.is_not(f):
            x = f.arg(0)
            if z3.is_not(x):
                f = x.arg(0)
                continue
            if z3.is_or(x):
                return And(*[Not(y) for y in x.children()]) if x.num_args() > 1 else pushneg(Not(x.arg(0)))
            if z3.is_implies(x):
                return And(x.arg(0), Not(x.arg(1)))
            if z3.is_and(x) and x.num_args() == 1:
                f = Not(x.arg(0))
                continue
        elif z3.is_or(f) and f.num_args() == 1:
            f = f.arg(0)
            continue
        elif z3.is_implies(f):
            y = pushneg(f.arg(1))
            if z3.is_and(y):
                return And(*[Implies(f.arg(0), z) for z in y.children()])
        return f


def consts_no(t):
    """numbers of the fresh constants in t"""
    out = set()
    st = [t]
    vis = set()
    while st:
        x = st.pop()
        if x.get_id() in vis:
            continue
        vis.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                n = x.decl().name()
                if '!' in n:
                    try:
                        out.add(int(n.rsplit('!', 1)[1]))
                    except ValueError:
                        pass
            else:
                st.extend(x.children())
    return out


_ztrunc = {}


def simp_sel(t, seen=()):
    """select over store with syntactically equal / constant-distinct index; locals (numbered below 0) and objects assumed numbered from 0 differ"""
    apart = lambda i, j: isc(i) and (isc(j) or (cv(i) < 0 and (j >= 0).get_id() in seen))
    while z3.is_app(t) and t.decl().kind() == Z3_OP_SELECT:
        a, i = t.arg(0), t.arg(1)
        if z3.is_app(a) and a.decl().kind() == Z3_OP_SELECT:
            a2 = simp_sel(a, seen)
            if not a2.eq(a):
                a = a2
                t = Select(a, i)
        if z3.is_app(a) and a.decl().kind() == Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i):
                t = a.arg(2)
                return t
            if apart(i, j) or apart(j, i):
                t = Select(a.arg(0), i)
                continue
        return t
    return t


def fpconst(t):
    if t.startswith('0x'):
        import struct
        v = struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
        from fractions import Fraction
        f = Fraction(v)
        return Q(f.numerator, f.denominator)
    from fractions import Fraction
    f = Fraction(float(t))
    return Q(f.numerator, f.denominator)


def is_ctor(cname):
    comps, _, _ = cxx.parse_name(cname)
    return len(comps) >= 2 and comps[-1][0] == comps[-2][0]


def is_dtor(cname):
    comps, _, _ = cxx.parse_name(cname)
    return comps[-1][0].startswith('~')
