"""ErrorMatrix: its representation (a table of rows, each memory of its own) and the contracts of its functions."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, PtrDT
from lists import N
from search import EMV, emr, emc, cell, emset, tms

PR, IM = ArraySort(I, PtrDT), ArraySort(I, ArraySort(I, I))
emview = Function('emview', I, I, PR, IM, EMV)      # rows, columns, the pointers to the rows, the memory of ints
rp = Function('rp', PR, I, PtrDT)                   # the pointer to row i
eat = lambda P, i: PtrDT.po(rp(P, i))
_r, _c, _P, _M, _i, _j, _k, _p = Int('r'), Int('c'), Const('P', PR), Const('M', IM), Int('i'), Int('j'), Int('k'), Const('p', PtrDT)
_v = emview(_r, _c, _P, _M)
L.axiom('emview', ['emview'], ForAll([_r, _c, _P, _M], And(emr(_v) == _r, emc(_v) == _c), patterns=[_v]))
L.axiom('emviewat', ['emview'], ForAll([_r, _c, _P, _M, _i, _j], cell(_v, _i, _j) == If(And(0 <= _i, _i <= _r, 0 <= _j, _j <= _c), Select(Select(_M, eat(_P, _i)), 4 * _j), IntVal(0)), patterns=[cell(_v, _i, _j)]))
L.axiom('rp', ['rp'], ForAll([_P, _i], rp(_P, _i) == Select(_P, 8 * _i), patterns=[rp(_P, _i)]))
L.axiom('rpst', ['rp'], ForAll([_P, _i, _k, _p], rp(Store(_P, _k, _p), _i) == If(8 * _i == _k, _p, rp(_P, _i)), patterns=[rp(Store(_P, _k, _p), _i)]))
L.axiom('tmsmul', ['rp'], ForAll([_i, _j], Implies(_i >= 0, tms(_i, _j) == _i * _j), patterns=[tms(_i, _j)]))


def parts(X, st, p):
    r, c, t = X.load(st, 'i64', p, False).u, X.load(st, 'i64', X.padd(st, p, 8), False).u, X.load(st, 'ptr', X.padd(st, p, 16), False)
    return r, c, t, L.nm(X.row(st, 'ptr', t.obj))


def same(a, b):
    r, c = fresh('er', I), fresh('ec', I)
    a, b = L.nm(a), L.nm(b)
    return And(emr(a) == emr(b), emc(a) == emc(b), ForAll([r, c], Implies(And(0 <= r, r <= emr(a), 0 <= c, c <= emc(a)), cell(a, r, c) == cell(b, r, c)), patterns=[cell(a, r, c), cell(b, r, c)]))


def rep():
    def view(X, st, p):
        r, c, t, P = parts(X, st, p)
        return emview(L.nm(r), L.nm(c), P, L.nm(X.memarr(st, 'i32')))

    def fam(X, st, p):
        r, c, t, P = parts(X, st, p)
        return Family(t.obj, r + 1, lambda i: eat(P, i), (r, P), lambda i: rp(P, i))

    def wf(X, st, p):
        r, c, t, P = parts(X, st, p)
        c = L.nm(c)
        o, ad = t.obj, X.addr(p)
        i = fresh('ri', I)
        e, t1 = eat(P, i), rp(P, i)
        al = L.nm(st.g['alive'])
        own = L.nm(st.g['owner'])
        inr = And(0 <= i, i <= r)
        return [("its size is below the assumed bound", And(r < 2**48, c < 2**48)),
                ("its table is memory of its own", And(o != 0, Select(st.g['alive'], o), t.off == 0, L.akind(o) == 2, L.okind(o) == 1, L.osize(o) >= 8 * r + 8)),
                ("its table has one owner", Select(st.g['owner'], o) == PtrDT.mkptr(ad[0], ad[1])),
                ("its rows are memory of their own", ForAll([i], Implies(inr, And(e > 0, Select(al, e), PtrDT.pf(t1) == 0, L.akind(e) == 2, L.okind(e) == 1, L.osize(e) >= 4 * c + 4)), patterns=[t1])),
                ("every row has one owner", ForAll([i], Implies(inr, Select(own, e) == PtrDT.mkptr(o, i)), patterns=[t1])),
                ("the table is not one of the rows", ForAll([i], Implies(inr, e != o), patterns=[t1]))]

    return Rep('ErrorMatrix', [('i64', 0), ('i64', 8), ('ptr', 16)], view, wf, lambda X, st, p: [X.load(st, 'ptr', X.padd(st, p, 16), False).obj, fam(X, st, p)], eq=same, rowsorts=('i32', 'ptr'))


def hints_new(lc):
    """building: the rows so far are new memory, one after the other; their cells so far are the multiples of the costs"""
    X, out = lc.X, []
    g = X.spec.ghost.get('matrix')
    if not g:
        return out
    this, rows, cols, ins, dele = g

    def table(S):
        t = X.load(S.st, 'ptr', X.padd(S.st, this, 16), False)
        return t.obj, L.nm(X.row(S.st, 'ptr', t.obj))
    M = lambda S: L.nm(X.memarr(S.st, 'i32'))
    al = lambda S: L.nm(S.st.g['alive'])
    i = fresh('hi', I)

    def upto(name, n):
        def made(S, n=n):
            o, P = table(S)
            return ForAll([i], Implies(And(0 <= i, i < n(S)), And(rp(P, i) == PtrDT.mkptr(o + 1 + i, 0), Select(al(S), o + 1 + i), L.akind(o + 1 + i) == 2, L.okind(o + 1 + i) == 1, L.osize(o + 1 + i) == 4 * cols + 4)), patterns=[rp(P, i)])

        def none(S, n=n):
            o, P = table(S)
            return ForAll([i], Implies(And(i >= X.next0, i < S.st.g['next'], Select(al(S), i)), Or(i == o, And(o < i, i <= o + n(S), eat(P, i - o - 1) == i))), patterns=[Select(al(S), i)])
        out.append(("rows made up to %s" % name, made))
        out.append(("only rows are made up to %s" % name, none))
        out.append(("next object after row %s" % name, lambda S, n=n: S.st.g['next'] == table(S)[0] + 1 + n(S)))

    def cells(name, n):
        def first(S):
            o, P = table(S)
            return ForAll([i], Implies(And(0 <= i, i < n(S)), Select(Select(M(S), o + 1), 4 * i) == tms(i, ins)), patterns=[tms(i, ins)])

        def column(S):
            o, P = table(S)
            return ForAll([i], Implies(And(0 <= i, i < n(S)), Select(Select(M(S), o + 1 + i), 0) == tms(i, dele)), patterns=[tms(i, dele)])
        out.append(("first row up to %s" % name, first))
        out.append(("first column up to %s" % name, column))
    out.append(("the pointer to row 0", lambda S: And(rp(table(S)[1], 0) == Select(table(S)[1], 0), tms(0, ins) == 0, tms(0, dele) == 0)))
    for n in lc.ints(64):
        for d in (0, 1):
            def named(S, n=n, d=d):
                o, P = table(S)
                k = num(S.v(n)) - d
                return And(rp(P, k) == Select(P, 8 * k), Implies(And(0 <= k, k <= rows), tms(k, dele) >= 0), Implies(And(0 <= k, k <= cols), tms(k, ins) >= 0))
            out.append(("the pointer to row %s-%d" % (n, d), named))
        upto(n, lambda S, n=n: num(S.v(n)))
        cells(n, lambda S, n=n: num(S.v(n)))
    upto('all', lambda S: rows + 1)
    cells('all', lambda S: cols + 1)
    return out


def hints_del(lc):
    """releasing: the rows so far are gone, everything else is as it was"""
    X, out = lc.X, []
    g = X.spec.ghost.get('matrixgone')
    if not g:
        return out
    f, t = g
    i = fresh('hi', I)
    for n in lc.ints(64):
        def gone(S, n=n):
            al = L.nm(S.st.g['alive'])
            return ForAll([i], Implies(And(0 <= i, i < f.count), Select(al, f.at(i)) == (i >= num(S.v(n)))), patterns=[f.term(i)])

        def rest(S, n=n):
            al = L.nm(S.st.g['alive'])
            return ForAll([i], Or(Select(al, i) == Select(X.alive0, i), f.has(X.owner0, i)), patterns=[Select(al, i)])
        out.append(("the row %s" % n, lambda S, n=n: f.term(num(S.v(n))) == Select(f.key[1], 8 * num(S.v(n)))))
        out.append(("rows gone up to %s" % n, gone))
        out.append(("nothing else is gone %s" % n, rest))
    return out


def hints_min(lc):
    """the smallest so far"""
    X, out = lc.X, []
    g = X.spec.ghost.get('matrixmin')
    if not g:
        return out
    M, r = g
    k = fresh('rc', I)
    for a in lc.ints(32):
        if lc.entry[a].w != 32:
            continue
        for n in lc.ints(64):
            out.append(("%s is at most the cells before %s" % (a, n), lambda S, a=a, n=n: And(ForAll([k], Implies(And(0 <= k, Or(k == 0, k < num(S.v(n))), k < emc(M)), cell(M, r, k) >= S.v(a).s), patterns=[cell(M, r, k)]),
                                                                                               Implies(And(0 <= num(S.v(n)), num(S.v(n)) < emc(M)), cell(M, r, num(S.v(n))) >= 0))))
        out.append(("%s is a cell" % a, lambda S, a=a: Exists([k], And(0 <= k, k < emc(M), cell(M, r, k) == S.v(a).s, S.v(a).s >= 0))))
    return out


def install(lib):
    C = lib.contracts
    lib.reps['ErrorMatrix'] = rep()

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    def look(spec, M, r, c):
        # (names the cell, so that what is known of its row is at hand)
        if spec.mode == 'def':
            spec.st.assume(cell(M, r, c) == cell(M, r, c) + 0)
            t = fresh('cel', I)
            spec.st.assume(t == cell(M, r, c))

    @con('ErrorMatrix::ErrorMatrix(unsigned long, unsigned long, int, int)')
    def c(spec, this, rows, cols, i, d):
        y, ni, nd = fresh('y', I), L.nm(i.u), L.nm(d.u)
        spec.requires("it is not too large", And(rows.u < 2**48, cols.u < 2**48))
        spec.requires("costs are not negative", And(i.u < 2**31, d.u < 2**31))
        spec.requires("the errors of its first row fit an int", ForAll([y], Implies(And(0 <= y, y <= cols.u), And(0 <= tms(y, ni), tms(y, ni) < 2**31)), patterns=[tms(y, ni)]))
        spec.requires("the errors of its first column fit an int", ForAll([y], Implies(And(0 <= y, y <= rows.u), And(0 <= tms(y, nd), tms(y, nd) < 2**31)), patterns=[tms(y, nd)]))
        spec.set('ErrorMatrix', this, None)
        M = lambda new: L.nm(new.get('ErrorMatrix', this))
        y2 = fresh('y', I)
        spec.ensures("its size", lambda new, ret: And(emr(M(new)) == rows.u, emc(M(new)) == cols.u))
        spec.ensures("its first row", lambda new, ret: ForAll([y2], Implies(And(0 <= y2, y2 <= cols.u), cell(M(new), 0, y2) == tms(y2, ni)), patterns=[cell(M(new), 0, y2)]))
        spec.ensures("its first column", lambda new, ret: ForAll([y2], Implies(And(0 <= y2, y2 <= rows.u), cell(M(new), y2, 0) == tms(y2, nd)), patterns=[cell(M(new), y2, 0)]))
        if spec.mode == 'def':
            spec.ghost['htries'] = 3
            spec.ghost['matrix'] = (this, rows.u, cols.u, i.u, d.u)
            spec.hints.append(hints_new)

    @con('ErrorMatrix::~ErrorMatrix()')
    def c(spec, this):
        spec.get('ErrorMatrix', this)
        spec.destroy('ErrorMatrix', this)
        if spec.mode == 'def' and 'ErrorMatrix' in spec.X.reps_active:
            o = spec.X.reps_active['ErrorMatrix'].owned(spec.X, spec.st, this)
            spec.ghost['matrixgone'] = (o[1], o[0])
            spec.hints.append(hints_del)

    @con('ErrorMatrix::set(unsigned long, unsigned long, int)')
    def c(spec, this, r, c, e):
        M = spec.get('ErrorMatrix', this)
        look(spec, M, r.u, c.u)
        spec.throws('std::out_of_range', Or(r.u > emr(M), c.u > emc(M)))
        spec.set('ErrorMatrix', this, emset(M, r.u, c.u, e.u))

    @con('ErrorMatrix::get(unsigned long, unsigned long) const')
    def c(spec, this, r, c):
        M = spec.get('ErrorMatrix', this)
        look(spec, M, r.u, c.u)
        spec.requires("the cell exists", And(r.u <= emr(M), c.u <= emc(M)))
        spec.returns(cell(M, r.u, c.u))

    @con('ErrorMatrix::totalError(unsigned long) const')
    def c(spec, this, r):
        M = spec.get('ErrorMatrix', this)
        look(spec, M, r.u, emc(M) - 1)
        spec.requires("the row exists", And(r.u <= emr(M), emc(M) >= 1))
        spec.returns(cell(M, r.u, emc(M) - 1))

    @con('ErrorMatrix::minError(unsigned long) const')
    def c(spec, this, r):
        M = spec.get('ErrorMatrix', this)
        look(spec, M, r.u, IntVal(0))
        spec.requires("the row exists", And(r.u <= emr(M), emc(M) >= 1))
        k = fresh('rc', I)
        spec.requires("its errors are not negative", ForAll([k], Implies(And(0 <= k, k < emc(M)), And(0 <= cell(M, r.u, k), cell(M, r.u, k) < 2**31)), patterns=[cell(M, r.u, k)]))
        k2, j = fresh('rc', I), fresh('rj', I)
        if spec.mode == 'def':
            spec.ghost['matrixmin'] = (M, r.u)
            spec.hints.append(hints_min)
        spec.ensures("the smallest of the row", lambda new, ret: And(ForAll([k2], Implies(And(0 <= k2, k2 < emc(M)), cell(M, r.u, k2) >= ret.s), patterns=[cell(M, r.u, k2)]),
                                                                  Exists([j], And(0 <= j, j < emc(M), cell(M, r.u, j) == ret.s))))
