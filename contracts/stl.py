"""Assumed contracts of std::string, the STL containers and google::sparse_hash_* (trusted, listed in the evidence).
Containers are values: vectors are (length, elements), maps (domain, values), sets domains."""
import re
import z3
from z3 import *
import cxx
import logic as L
from logic import VerifUnsupported, zs, fresh, I, PtrDT
import vc
from vc import *
import steps

STR = 'std::__cxx11::basic_string'
EXC = ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::bad_alloc',
       'std::length_error', 'std::domain_error', 'std::overflow_error', 'std::range_error', 'std::underflow_error')
CONT = ('std::vector', 'std::map', 'std::set', 'google::sparse_hash_map', 'google::sparse_hash_set', 'std::unordered_map', 'std::unordered_set')
ITER = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'google::sparse_hashtable_iterator', 'google::sparse_hashtable_const_iterator')


def owner(comps):
    return '::'.join(c[0] for c in comps[:-1])


def default(X, s):
    if s in cxx.SIZES and s not in ('ptr', 'f64', 'str'):
        return IntVal(0)
    if s == 'ptr':
        return PtrDT.mkptr(0, 0)
    if s == 'f64':
        return RealVal(0)
    if s == 'str':
        return L.strlit(b'')
    if s == 'Word':
        return L.emptyw
    if isinstance(s, tuple):
        if s[0] == 'vec':
            return L.vempty(s)
        if s[0] in ('map', 'set'):
            return L.mempty(s)
        if s[0] == 'rec':
            return L.rmk(s, [default(X, f) for _, f in s[1]])
    d = X.lib.defaults.get(s)
    if d is not None:
        return d() if callable(d) else d
    raise VerifUnsupported("default value of %s" % (s,))


def movedfrom(X, st, s, p):
    """what a moved-from element holds"""
    if s == 'Word' or (isinstance(s, tuple) and s[0] in ('vec', 'map', 'set')):
        X.store(st, s, p, default(X, s), check=False)
    elif s == 'str':
        X.store(st, s, p, fresh('moved', L.StrS), check=False)
    elif isinstance(s, tuple) and s[0] == 'rec':
        for o, f in s[1]:
            movedfrom(X, st, f, X.padd(st, p, o))


def ev(X, st, s, p):
    """element value of sort s at p (as a term)"""
    return X.toz(s, X.load(st, s, p))


def install(lib):
    lib.defaults = {}
    H = lib.handlers

    def on(pred):
        def d(f):
            H.append((pred, f))
            return f
        return d

    # ---------------------------------------------------------------- exceptions
    @on(lambda c, p, h: owner(c) in EXC)
    def exc(X, st, a, info):
        if info.method == 'what':
            return PS(fresh('what', L.StrS), 0)
        return None

    # ---------------------------------------------------------------- strings
    @on(lambda c, p, h: owner(c) == STR)
    def string(X, st, a, info):
        m = info.method
        this = a[0]
        ps = info.params or []
        isstr = lambda t: 'basic_string' in t
        put = lambda v: X.store(st, 'str', this, v, check=False)
        get = lambda p=this: X.load(st, 'str', p)
        if m == 'basic_string':
            if len(ps) == 0:
                put(L.strlit(b''))
            elif isstr(ps[0]):
                v = get(a[1])
                put(v)
                if ps[0].endswith('&&'):
                    X.store(st, 'str', a[1], fresh('moved', L.StrS), check=False)
            elif ps[0].startswith('char const*') and len(ps) <= 2 and (len(ps) == 1 or 'allocator' in ps[1]):
                put(X.lib.cstr_ok(X, st, a[1], 'std::string'))
            else:
                put(fresh('str', L.StrS))
            return None
        if m == '~basic_string':
            steps.destroy(X, st, 'str', this)
            return None
        if m in ('c_str', 'data'):
            return PS(get(), 0)
        if m in ('size', 'length'):
            return IV(64, u=L.slen(get()))
        if m == 'empty':
            return IV(1, b=L.slen(get()) == 0)
        if m in ('operator+=', 'append', 'push_back', 'assign'):
            put(fresh('str', L.StrS))
            return this
        if m == 'operator=':
            if isstr(ps[0]):
                v = get(a[1])
                put(v)
                if ps[0].endswith('&&'):
                    X.store(st, 'str', a[1], fresh('moved', L.StrS), check=False)
            else:
                put(X.lib.cstr_ok(X, st, a[1], 'std::string'))
            return this
        raise VerifUnsupported("std::string::" + m)

    @on(lambda c, p, h: steps.short(c) in ('std::operator+', 'std::to_string', 'std::__cxx11::to_string', 'std::operator@shl') and len(c) == 2)
    def strplus(X, st, a, info):
        X.store(st, 'str', a[0], fresh('str', L.StrS), check=False)
        return None

    @on(lambda c, p, h: steps.short(c) in ('std::operator==', 'std::operator!=') and p and 'basic_string' in p[0])
    def streq(X, st, a, info):
        def s(t, p):
            return X.load(st, 'str', p) if 'basic_string' in t else X.lib.cstr_ok(X, st, p, 'string comparison')
        e = s(info.params[0], a[0]) == s(info.params[1], a[1])
        return IV(1, b=e if info.method == 'operator==' else Not(e))

    # ---------------------------------------------------------------- iterators
    def itload(X, st, p):
        v = X.load(st, 'ptr', p)
        return v

    def itkey(X, st, v):
        m = X.load(st, v.cs, v.cont)
        if v.key is not None:
            return v.key
        return L.enum(v.cs, m, v.rank)

    def deref(X, st, v):
        m = X.load(st, v.cs, v.cont)
        X.oblige(st, "the iterator points at an element", And(v.rank >= 0, v.rank < L.card(v.cs, m)), 'memory')
        return PE(v.cont, v.cs, itkey(X, st, v))

    @on(lambda c, p, h: owner(c) in ITER)
    def iters(X, st, a, info):
        m = info.method
        if m.startswith('_Rb_tree_') or m.startswith('sparse_hashtable_'):
            if len(a) == 2:
                v = a[1]
                if isinstance(v, IT):
                    X.store(st, 'ptr', a[0], v)
                else:
                    X.store(st, 'ptr', a[0], itload(X, st, v))
            elif len(a) == 1:
                X.store(st, 'ptr', a[0], NULL)
            return None
        if m in ('operator@arrow', 'operator->', 'operator*'):
            return deref(X, st, itload(X, st, a[0]))
        if m in ('operator==', 'operator!='):
            e = X.ptr_eq(st, itload(X, st, a[0]), itload(X, st, a[1]))
            return IV(1, b=e if m == 'operator==' else Not(e))
        if m == 'operator++':
            sret = bool(info.ins.a) and info.ins.ty.k == 'void'
            if sret:
                v = itload(X, st, a[1])
                X.store(st, 'ptr', a[0], v)
                p = a[1]
            else:
                p = a[0]
                v = itload(X, st, p)
            mm = X.load(st, v.cs, v.cont)
            X.oblige(st, "the iterator is not advanced past the end", And(v.rank >= 0, v.rank < L.card(v.cs, mm)), 'memory')
            X.store(st, 'ptr', p, IT(v.cont, v.cs, v.rank + 1))
            if sret:
                return None
            return v if len(a) == 2 else a[0]
        if m == '_M_const_cast':
            return itload(X, st, a[0])
        raise VerifUnsupported("iterator " + m)

    @on(lambda c, p, h: c[-1][0] in ('operator==', 'operator!=') and p and len(p) == 2 and ('_Rb_tree_iterator' in p[0] or '_Rb_tree_const_iterator' in p[0]))
    def itcmp(X, st, a, info):
        e = X.ptr_eq(st, itload(X, st, a[0]), itload(X, st, a[1]))
        return IV(1, b=e if info.method == 'operator==' else Not(e))

    # ---------------------------------------------------------------- vectors
    @on(lambda c, p, h: owner(c) == 'std::vector')
    def vector(X, st, a, info):
        es = cxx.ctype(info.targs[0])
        s = ('vec', es)
        m = info.method
        this = a[0]
        ps = info.params or []
        get = lambda p=this: X.load(st, s, p)
        put = lambda v, p=this: X.store(st, s, p, v, check=False)
        if m == 'vector':
            if len(ps) == 0 or (len(ps) == 1 and 'allocator' in ps[0] and 'vector' not in ps[0]):
                put(L.vempty(s))
            elif ps[0].startswith('std::vector') and ps[0].endswith('const&'):
                put(get(a[1]))
            elif ps[0].startswith('std::vector') and ps[0].endswith('&&'):
                put(get(a[1]))
                put(L.vempty(s), a[1])
            elif ps[0] == 'unsigned long':
                n = a[1].u
                v = fresh('vec', zs(s))
                d = ev(X, st, es, a[2]) if len(ps) > 1 and 'allocator' not in ps[1] else default(X, es)
                k = fresh('k', I)
                st.assume(And(L.vlen(s, v) == n, ForAll([k], Implies(And(0 <= k, k < n), L.vat(s, v, k) == d), patterns=[L.vat(s, v, k)])))
                put(v)
            else:
                raise VerifUnsupported("vector constructor " + str(ps))
            return None
        if m == '~vector':
            steps.destroy(X, st, s, this)
            return None
        if m == 'size':
            n = L.vlen(s, get())
            X.assume_range(st, 48, n)
            return IV(64, u=n)
        if m == 'empty':
            return IV(1, b=L.vlen(s, get()) == 0)
        if m in ('begin', 'cbegin'):
            return PE(this, s, 0)
        if m in ('end', 'cend'):
            return PE(this, s, L.vlen(s, get()))
        if m in ('rbegin', 'rend', 'crbegin', 'crend'):
            # reverse_iterator holds the position after its element
            X.store(st, 'ptr', a[0], PE(a[1], s, L.vlen(s, get(a[1])) if 'begin' in m else 0))
            return None
        if m == 'operator[]':
            n = L.vlen(s, get())
            X.oblige(st, "the vector element exists", a[1].u < n, 'memory')
            return PE(this, s, a[1].u)
        if m == 'at':
            n = L.vlen(s, get())
            s2 = st.copy()
            s2.assume(a[1].u >= n)
            st.assume(a[1].u < n)
            return [(s2, None, PX(0, 'std::out_of_range')), (st, PE(this, s, a[1].u), None)]
        if m in ('front', 'back'):
            n = L.vlen(s, get())
            X.oblige(st, "the vector is not empty", n > 0, 'memory')
            return PE(this, s, IntVal(0) if m == 'front' else n - 1)
        if m == 'push_back' or (m == 'emplace_back' and len(a) == 2 and info.mtargs and len(info.mtargs) == 1 and samesort(info.mtargs[0], es)):
            p = a[1]
            v = get()
            X.oblige(st, "size of a vector is representable", BoolVal(True))
            put(L.vpush(s, v, ev(X, st, es, p)))
            if (ps and ps[-1].endswith('&&')):
                if not isinstance(es, str) or es in ('Word', 'str'):
                    movedfrom(X, st, es, p)
            return PE(this, s, L.vlen(s, v)) if info.ins.ty.k == 'ptr' else None
        if m == 'insert' and len(a) == 4 and all(isinstance(x, PE) for x in a[1:]) and a[2].cs == s and same(a[2].cont, a[3].cont):
            v, w = get(), X.load(st, s, a[2].cont)
            X.oblige(st, "elements of another vector are inserted", Not(X.ptr_eq(st, this, a[2].cont)), 'memory')
            X.oblige(st, "whole contents are appended", And(same(a[1].cont, this), num(a[1]) == L.vlen(s, v), num(a[2]) == 0, num(a[3]) == L.vlen(s, w)))
            put(L.vcat(s, v, w))
            return PE(this, s, L.vlen(s, v))
        if m == 'pop_back':
            v = get()
            X.oblige(st, "the vector is not empty", L.vlen(s, v) > 0, 'memory')
            put(L.vmk(s, L.vlen(s, v) - 1, L.vel(s, v)))
            return None
        if m == 'clear':
            put(L.vempty(s))
            return None
        if m == 'reserve':
            return None
        if m == 'operator=':
            if same(this, a[1]):
                return this
            put(get(a[1]))
            if ps[0].endswith('&&'):
                put(L.vempty(s), a[1])
            return this
        if m == 'swap':
            v, w = get(), get(a[1])
            put(w)
            put(v, a[1])
            return None
        if m == 'resize':
            v, n = get(), a[1].u
            w = fresh('vec', zs(s))
            d = ev(X, st, es, a[2]) if len(a) > 2 else default(X, es)
            k = fresh('k', I)
            st.assume(And(L.vlen(s, w) == n, ForAll([k], Implies(And(0 <= k, k < n), L.vat(s, w, k) == If(k < L.vlen(s, v), L.vat(s, v, k), d)), patterns=[L.vat(s, w, k)])))
            put(w)
            return None
        raise VerifUnsupported("std::vector::" + m)

    # ---------------------------------------------------------------- sorting
    @on(lambda c, p, h: steps.short(c) in ('std::sort', 'std::stable_sort'))
    def sorting(X, st, a, info):
        t = info.comps[-1][1]
        rev = t[0].startswith('std::reverse_iterator<')
        x = re.search(r'__normal_iterator<(.*?)\*, ', t[0])
        if not x:
            raise VerifUnsupported("sort of " + t[0][:60])
        es = cxx.ctype(x.group(1))
        s = ('vec', es)
        f, l = (X.load(st, 'ptr', q) for q in a[:2]) if rev else a[:2]
        if rev:
            f, l = l, f
        if not (isinstance(f, PE) and isinstance(l, PE) and f.cs == s and same(f.cont, l.cont)):
            raise VerifUnsupported("sort of part of something")
        v = X.load(st, s, f.cont)
        n = L.vlen(s, v)
        X.oblige(st, "a whole container is sorted", And(num(f) == 0, num(l) == n), 'safety')
        # what the comparison decides
        x, y = fresh('sx', zs(es)), fresh('sy', zs(es))
        cells = []
        sc = st.copy()
        for e in (x, y):
            X.nalloca += 1
            q = PA(X.nalloca, 0)
            X.store(sc, es, q, X.tov(sc, es, e), check=False)
            cells.append(q)
        if len(t) > 1:
            nm = [m for m, d in X.dm.items() if d.startswith(t[1] + '::operator()(') and X.mod.func(m)]
            X.nalloca += 1
            first = [a[2] if len(a) > 2 else PA(X.nalloca, 0)]
        else:
            nm = [m for m, d in X.dm.items() if d.startswith(re.search(r'__normal_iterator<(.*?)\*, ', t[0]).group(1) + '::operator<(') and X.mod.func(m)]
            first = []
        if len(nm) != 1:
            raise VerifUnsupported("the comparison of a sort")
        rs = X.evalfn(nm[0], first + cells, sc)
        stable = info.method == 'stable_sort'
        for order, result in X.lib.orders.get(es, []):
            # order(x, y): x comes strictly before y
            g = order(x, y) if not rev else order(y, x)
            if all(prove(s2.path, r.b == g, 5.0)[0] == 'proved' for s2, r in rs):
                w = result(X, st, v, stable)
                X.store(st, s, f.cont, w, check=False)
                return None
        raise VerifUnsupported("a sort by an order that has no specification")
    lib.orders = {}

    @on(lambda c, p, h: c[-1][0] in ('operator==', 'operator!=') and p and len(p) == 2 and re.match(r'std::(vector|map|set)<', p[0]))
    def conteq(X, st, a, info):
        s = cxx.ctype(info.params[0])
        b = fresh('conteq', BoolSort())
        x, y = X.load(st, s, a[0]), X.load(st, s, a[1])
        f = L.eqv(s, x, y)
        if s[0] == 'vec':
            # a first difference, for the other direction
            k = fresh('diff', I)
            st.assume(Implies(Not(b), Or(L.vlen(s, x) != L.vlen(s, y), And(0 <= k, k < L.vlen(s, x), Not(L.eqv(s[1], L.vat(s, x, k), L.vat(s, y, k)))))))
            st.assume(Implies(b, f))
        else:
            st.assume(b == f)
        return IV(1, b=b if info.method == 'operator==' else Not(b))

    def samesort(t, es):
        try:
            return cxx.ctype(t) == es
        except Exception:
            return False

    # ---------------------------------------------------------------- maps and sets
    @on(lambda c, p, h: owner(c) in CONT[1:])
    def assoc(X, st, a, info):
        s = cxx.ctype('::'.join(c[0] for c in info.comps[:-1]) + '<' + ', '.join(info.targs) + '>')
        m = info.method
        ps = info.params or []
        this = a[0]
        sret = False
        if info.ins.ty.k == 'void' and m in ('find', 'begin', 'end', 'insert', 'cbegin', 'cend'):
            sret, out, a = True, a[0], a[1:]
            this = a[0]
        get = lambda p=this: X.load(st, s, p)
        put = lambda v, p=this: X.store(st, s, p, v, check=False)
        if m == info.cls.split('::')[-1]:
            own = info.cls
            if ps and own in ps[0] and ps[0].endswith('const&'):
                put(get(a[1]))
            elif ps and own in ps[0] and ps[0].endswith('&&'):
                put(get(a[1]))
                put(L.mempty(s), a[1])
            else:
                put(L.mempty(s))
            return None
        if m.startswith('~'):
            steps.destroy(X, st, s, this)
            return None
        if m == 'size':
            n = L.card(s, get())
            X.assume_range(st, 48, n)
            return IV(64, u=n)
        if m == 'empty':
            return IV(1, b=L.card(s, get()) == 0)

        def give(it):
            if sret:
                X.store(st, 'ptr', out, it)
                return None
            return it
        if m in ('begin', 'cbegin'):
            return give(IT(this, s, 0))
        if m in ('end', 'cend'):
            return give(IT(this, s, L.card(s, get())))
        key = lambda: ev(X, st, s[1], a[1])
        if m == 'find':
            k = key()
            mm = get()
            s2 = st.copy()
            has = L.mhas(s, mm, k)
            outs = []
            for sx, cond, it in ((s2, Not(has), IT(this, s, L.card(s, mm))), (st, has, IT(this, s, L.rank(s, mm, k), k))):
                if not X.feasible(sx, cond):
                    continue
                sx.assume(cond)
                if sret:
                    X.store(sx, 'ptr', out, it)
                    outs.append((sx, None, None))
                else:
                    outs.append((sx, it, None))
            return outs
        if m == 'count':
            return IV(64, u=If(L.mhas(s, get(), key()), IntVal(1), IntVal(0)))
        if m == 'operator[]':
            k = key()
            mm = get()
            rs = cxx.mkrec([s[1], s[2]])
            vo = rs[1][1][0]
            has = L.mhas(s, mm, k)
            outs = []
            s2 = st.copy()
            if X.feasible(s2, Not(has)):
                s2.assume(Not(has))
                X.store(s2, s, this, L.mput(s, mm, k, default(X, s[2])), check=False)
                outs.append((s2, PE(this, s, k, vo), None))
            if X.feasible(st, has):
                st.assume(has)
                outs.append((st, PE(this, s, k, vo), None))
            return outs
        if m == 'insert':
            mm = get()
            if s[0] == 'set':
                k = key()
                nv = Store(mm, k, True)
            else:
                rs = cxx.mkrec([s[1], s[2]])
                k = ev(X, st, s[1], a[1])
                v = ev(X, st, s[2], X.padd(st, a[1], rs[1][1][0]))
                nv = None
            has = L.mhas(s, mm, k)
            outs = []
            s2 = st.copy()
            for sx, cond, new in ((s2, Not(has), True), (st, has, False)):
                if not X.feasible(sx, cond):
                    continue
                sx.assume(cond)
                if new:
                    X.store(sx, s, this, nv if nv is not None else L.mput(s, mm, k, v), check=False)
                m2 = X.load(sx, s, this)
                it = IT(this, s, L.rank(s, m2, k), k)
                b = IV(8, u=IntVal(1 if new else 0))
                if sret:
                    X.store(sx, 'ptr', out, it)
                    X.store(sx, 'i8', X.padd(sx, out, 24), b)
                    outs.append((sx, None, None))
                else:
                    outs.append((sx, [it, b], None))
            return outs
        if m == 'clear':
            put(L.mempty(s))
            return None
        if m == 'erase' and info.ins.ty.k == 'i':
            k = key()
            mm = get()
            put(L.mmk(s, Store(L.mdom(s, mm), k, False), None if s[0] == 'set' else L.mval(s, mm)))
            return IV(64, u=If(L.mhas(s, mm, k), IntVal(1), IntVal(0)))
        if m == 'operator=':
            put(get(a[1]))
            if ps[0].endswith('&&') and not same(this, a[1]):
                put(L.mempty(s), a[1])
            return this
        if m == 'swap':
            v, w = get(), get(a[1])
            put(w)
            put(v, a[1])
            return None
        raise VerifUnsupported("container " + m)


KEEP = re.compile(r'^(std::vector<|std::map<|std::set<|std::__cxx11::basic_string<|google::sparse_hash_(map|set)<|google::sparse_hashtable_(const_)?iterator<|std::_Rb_tree_(const_)?iterator<|std::unordered_(map|set)<)')


def keep(d, comps, params):
    o = owner(comps)
    if o in EXC or o == STR or o in CONT or o in ITER:
        # private helpers and nested functors are inlined
        m = comps[-1][0]
        return not m.startswith('_M_') or m == '_M_const_cast'
    s = steps.short(comps)
    if s in ('std::operator+', 'std::to_string', 'std::__cxx11::to_string', 'std::sort', 'std::stable_sort'):
        return True
    if s in ('std::operator==', 'std::operator!=') and params and ('basic_string' in params[0] or re.match(r'std::(vector|map|set)<', params[0])):
        return True
    if comps[-1][0] in ('operator==', 'operator!=') and params and len(params) == 2 and re.match(r'(const )?std::_Rb_tree_(const_)?iterator', params[0]):
        return True
    return False
