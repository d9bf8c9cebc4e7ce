"""Trie: its representation (nodes and entries in a mapped file) and the contracts of its own functions beyond what clients use."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, PtrDT, WordS
from lists import N
from store import *

ROW = ArraySort(I, I)
tview = Function('tview', ROW, ROW, I, TrieV)       # the trie in the memory of a mapping (its ints, its letters) with this root
wpre = Function('wpre', WordS, I, WordS)            # the first letters of a word
tin = Function('tin', TrieV, I, I)                  # the entry a node that is not the root hangs from
_T, _n, _w, _i, _v, _s = Const('T', TrieV), Int('n'), Const('w', WordS), Int('i0'), Const('v', WordS), Int('s')
_p = wpre(_w, _i)
L.axiom('wpre', ['wpre'], ForAll([_w, _i], And(Implies(And(0 <= _i, _i <= L.wlen(_w)), L.wlen(_p) == _i), Implies(_i == 0, _p == L.emptyw), Implies(_i == L.wlen(_w), _p == _w)), patterns=[_p]))
# the tree: a node that is not the root hangs from an entry
L.axiom('tin', ['tin'], ForAll([_T, _n], Implies(And(tnode(_T, _n), _n != troot(_T)), And(tentry(_T, tin(_T, _n)), tchild(_T, tin(_T, _n)) == _n)), patterns=[tin(_T, _n)]))
L.axiom('tin2', ['tin', 'tchild'], ForAll([_T, _s], Implies(tentry(_T, _s), And(tin(_T, tchild(_T, _s)) == _s, tchild(_T, _s) != troot(_T))), patterns=[tchild(_T, _s)]))
# one step down (consequences of the above: proved as lemmas)
_f, _g = tfind(_T, wpre(_w, _i)), tfind(_T, wpre(_w, _i + 1))
down = lambda T, w, i, s: Implies(And(tentry(T, s), 0 <= i, i < L.wlen(w), tfind(T, wpre(w, i)) != 0, town(T, s) == tfind(T, wpre(w, i)), tlet(T, s) == L.wat(w, i)), tchild(T, s) == tfind(T, wpre(w, i + 1)))
up = lambda T, w, i, e: Implies(And(0 <= i, i < L.wlen(w), tfind(T, wpre(w, i + 1)) != 0), And(e == tin(T, tfind(T, wpre(w, i + 1))), tentry(T, e), town(T, e) == tfind(T, wpre(w, i)), tlet(T, e) == L.wat(w, i)))
L.axiom('tdown', ['tin', 'tchild'], ForAll([_T, _w, _i, _s], down(_T, _w, _i, _s), patterns=[MultiPattern(tchild(_T, _s), _f, L.wat(_w, _i))]))
tup = Function('tup', TrieV, WordS, I, I)
L.axiom('tup', ['tup'], ForAll([_T, _w, _i], up(_T, _w, _i, tup(_T, _w, _i)), patterns=[tup(_T, _w, _i)]))
# by induction from 'tup': where a word leads, its beginnings lead
L.axiom('tpres', ['wpre', 'tfind'], ForAll([_T, _w, _i], Implies(And(0 <= _i, _i <= L.wlen(_w), tfind(_T, _w) != 0), tfind(_T, wpre(_w, _i)) != 0), patterns=[MultiPattern(tfind(_T, _w), wpre(_w, _i))]))

wpush = Function('wpush', WordS, I, WordS)          # a word with one more letter
_l, _c, _k, _x = Ints('l c k x')
_q = wpush(_w, _l)
_ok = And(0 <= _l, _l < 65536, L.wlen(_w) < 2**29 - 1)
L.axiom('wpush', ['wpush'], ForAll([_w, _l], Implies(_ok, And(wpop(_q) == _w, wlast(_q) == _l, L.wlen(_q) == L.wlen(_w) + 1)), patterns=[_q]))
L.axiom('wpush2', ['wpush'], ForAll([_w, _l, _v], Implies(And(_ok, wpop(_v) == _w, wlast(_v) == _l, L.wlen(_v) > 0), _v == _q), patterns=[MultiPattern(_q, wpop(_v))]))
L.axiom('wprepush', ['wpush', 'wpre'], ForAll([_w, _i], Implies(And(0 <= _i, _i < L.wlen(_w)), wpre(_w, _i + 1) == wpush(_p, L.wat(_w, _i))), patterns=[MultiPattern(_p, L.wat(_w, _i))]))
# ---- building: the trie of a new file; with another number of nodes counted; with one more entry s (letter l, child c) of node n; with a word of number i at node n
tinit = Const('tinit', TrieV)
tnn, tadd, tput = Function('tnn', TrieV, I, TrieV), Function('tadd', TrieV, I, I, I, I, TrieV), Function('tput', TrieV, I, I, TrieV)


def sameas(U, T, but=()):
    """U has what T has, but for the functions named"""
    n, s, w, k = Int('sa_n'), Int('sa_s'), Const('sa_w', WordS), Int('sa_k')
    out = []
    if 'tnode' not in but:
        out += [('n', [n], tnode(U, n) == tnode(T, n), [tnode(U, n), tnode(T, n)]), ('p', [n], Implies(tnode(T, n), And(tpath(U, n) == tpath(T, n), tin(U, n) == tin(T, n), tcnt(U, n) == tcnt(T, n))), [tpath(U, n), tin(U, n), tcnt(U, n)]),
                ('f', [w], tfind(U, w) == tfind(T, w), [tfind(U, w)]), ('e', [s], tentry(U, s) == tentry(T, s), [tentry(U, s), tentry(T, s)]),
                ('c', [s], Implies(tentry(T, s), And(town(U, s) == town(T, s), trk(U, s) == trk(T, s), tlet(U, s) == tlet(T, s), tchild(U, s) == tchild(T, s))), [town(U, s), trk(U, s), tlet(U, s), tchild(U, s)]),
                ('t', [n, k], Implies(And(tnode(T, n), 0 <= k, k < tcnt(T, n)), tent(U, n, k) == tent(T, n, k)), [tent(U, n, k)])]
    if 'tword' not in but:
        out += [('w', [n], tword(U, n) == tword(T, n), [tword(U, n), tword(T, n)]), ('i', [n], Implies(tword(T, n), twid(U, n) == twid(T, n)), [twid(U, n)]), ('m', [], tnum(U) == tnum(T), [tnum(U)])]
    if 'tnodes' not in but:
        out += [('d', [], tnodes(U) == tnodes(T), [tnodes(U)])]
    return out


def build(name, vs, U, parts, guard=None):
    for nm, xs, f, ps in parts:
        ps = [q if q.arg(0).eq(U) else MultiPattern(U, q) for q in ps]
        L.axiom(name + nm, [U.decl().name()], ForAll(vs + xs, f if guard is None else Implies(guard, f), patterns=ps))


_U = tnn(_T, _k)
build('tnn', [_T, _k], _U, sameas(_U, _T, ('tnodes',)) + [('d', [], Implies(And(0 <= _k, _k < 2**32), tnodes(_U) == _k), [tnodes(_U)])])
_U = tput(_T, _n, _i)
_x = Int('x')
canput = lambda T, n, i: And(tnode(T, n), L.wlen(tpath(T, n)) > 0, Not(tword(T, n)), 0 <= i, i < INVALID, tnum(T) < 2**32 - 1)
build('tput', [_T, _n, _i], _U, sameas(_U, _T, ('tword',)) + [('w', [_x], tword(_U, _x) == Or(_x == _n, tword(_T, _x)), [tword(_U, _x), tword(_T, _x)]),
                                                             ('i', [_x], Implies(tword(_U, _x), twid(_U, _x) == If(_x == _n, _i, twid(_T, _x))), [twid(_U, _x)]), ('m', [], tnum(_U) == tnum(_T) + 1, [tnum(_U)])], canput(_T, _n, _i))
_U = tadd(_T, _n, _s, _l, _c)


def free(T, n, l):
    """no entry of node n has letter l"""
    k = fresh('fk', I)
    T, n = L.nm(T), L.nm(n)
    return ForAll([k], Implies(And(0 <= k, k < tcnt(T, n)), tlet(T, tent(T, n, k)) != l), patterns=[tent(T, n, k)])


canadd = lambda T, n, s, l, c: And(tnode(T, n), Not(tnode(T, c)), Not(tentry(T, s)), 0 < c, c < 2**32, 0 < s, s < 2**32, 0 < l, l < 65536, L.wlen(tpath(T, n)) < 2**29 - 1, tfind(T, wpush(tpath(T, n), l)) == 0)
_pt, _x, _kk = wpush(tpath(_T, _n), _l), Int('x'), Int('kk')
build('tadd', [_T, _n, _s, _l, _c], _U, sameas(_U, _T, ('tnode',)) + [
    ('n', [_x], tnode(_U, _x) == Or(_x == _c, tnode(_T, _x)), [tnode(_U, _x), tnode(_T, _x)]),
    ('p', [_x], Implies(tnode(_U, _x), And(tpath(_U, _x) == If(_x == _c, _pt, tpath(_T, _x)), tin(_U, _x) == If(_x == _c, _s, tin(_T, _x)), tcnt(_U, _x) == If(_x == _c, 0, If(_x == _n, tcnt(_T, _x) + 1, tcnt(_T, _x))))), [tpath(_U, _x), tin(_U, _x), tcnt(_U, _x)]),
    ('f', [_w], tfind(_U, _w) == If(_w == _pt, _c, tfind(_T, _w)), [tfind(_U, _w)]),
    ('e', [_x], tentry(_U, _x) == Or(_x == _s, tentry(_T, _x)), [tentry(_U, _x), tentry(_T, _x)]),
    ('c', [_x], Implies(tentry(_U, _x), And(town(_U, _x) == If(_x == _s, _n, town(_T, _x)), trk(_U, _x) == If(_x == _s, tcnt(_T, _n), trk(_T, _x)), tlet(_U, _x) == If(_x == _s, _l, tlet(_T, _x)), tchild(_U, _x) == If(_x == _s, _c, tchild(_T, _x)))),
     [town(_U, _x), trk(_U, _x), tlet(_U, _x), tchild(_U, _x)]),
    ('t', [_x, _kk], Implies(And(tnode(_U, _x), 0 <= _kk, _kk < tcnt(_U, _x)), tent(_U, _x, _kk) == If(And(_x == _n, _kk == tcnt(_T, _n)), _s, tent(_T, _x, _kk))), [tent(_U, _x, _kk)])], canadd(_T, _n, _s, _l, _c))
L.axiom('tinit', ['tinit'], ForAll([_n], And(tnode(tinit, _n) == (_n == 16), Not(tentry(tinit, _n)), Not(tword(tinit, _n))), patterns=[tnode(tinit, _n), tentry(tinit, _n), tword(tinit, _n)]))
L.axiom('tinit2', ['tinit'], And(tcnt(tinit, 16) == 0, tnum(tinit) == 0, tnodes(tinit) == 1, tfind(tinit, L.emptyw) == 16, tpath(tinit, 16) == L.emptyw))

# ---- a trie's nodes (20 bytes) and entries (12 bytes) do not overlap; used only near the places named
tapart, near = Function('tapart', TrieV, BoolSort()), Function('near', TrieV, I, BoolSort())
_y = Int('y')


def overlapfree(T, x, y):
    return [Implies(And(tnode(T, x), tnode(T, y), x != y), Or(x + 20 <= y, y + 20 <= x)), Implies(And(tentry(T, x), tentry(T, y), x != y), Or(x + 12 <= y, y + 12 <= x)),
            Implies(And(tnode(T, x), tentry(T, y)), Or(x + 20 <= y, y + 12 <= x)), Implies(And(tentry(T, x), tnode(T, y)), Or(x + 12 <= y, y + 20 <= x))]


_keep_ = [near(_T, _x), tnode(_T, _y), tentry(_T, _y), tapart(_T)]      # (z3 does not keep the terms of patterns)
_tp = [MultiPattern(_keep_[0], _keep_[1]), MultiPattern(_keep_[0], _keep_[2])]
_tb = Implies(tapart(_T), And(*overlapfree(_T, _x, _y)))
L.axiom('tapart', ['tapart', 'near'], ForAll([_T, _x, _y], _tb, patterns=_tp))
L.axiom('tapartnn', ['tapart', 'tnn'], ForAll([_T, _k], tapart(tnn(_T, _k)) == tapart(_T), patterns=[tapart(tnn(_T, _k))]))
L.axiom('tapartput', ['tapart', 'tput'], ForAll([_T, _n, _i], Implies(canput(_T, _n, _i), tapart(tput(_T, _n, _i)) == tapart(_T)), patterns=[tapart(tput(_T, _n, _i))]))
beneath = lambda T, c: And(ForAll([_x], Implies(tnode(T, _x), _x + 20 <= c), patterns=[tnode(T, _x)]), ForAll([_x], Implies(tentry(T, _x), _x + 12 <= c), patterns=[tentry(T, _x)]))
L.axiom('tapartadd', ['tapart', 'tadd'], ForAll([_T, _n, _s, _l, _c], Implies(And(canadd(_T, _n, _s, _l, _c), tapart(_T), _s == _c + 20, beneath(_T, _c)), tapart(tadd(_T, _n, _s, _l, _c))), patterns=[tapart(tadd(_T, _n, _s, _l, _c))]))
L.axiom('tapartinit', ['tapart', 'tinit'], tapart(tinit))


def lemmas_trie():
    """what the axioms about overlaps say follows from the definition"""
    T, x, y, n, s, l, c, i, k = Const('lT', TrieV), *Ints('lx ly ln ls ll lc li lk')
    free = lambda T: ForAll([_x, _y], And(*overlapfree(T, _x, _y)), patterns=[MultiPattern(tnode(T, _x), tnode(T, _y)), MultiPattern(tnode(T, _x), tentry(T, _y)), MultiPattern(tentry(T, _x), tnode(T, _y)), MultiPattern(tentry(T, _x), tentry(T, _y))])
    U = tadd(T, n, s, l, c)
    return [("a new node and its entry overlap nothing", [canadd(T, n, s, l, c), free(T), s == c + 20, beneath(T, c)], And(*overlapfree(U, x, y))),
            ("a word in a node moves nothing", [canput(T, n, i), free(T)], And(*overlapfree(tput(T, n, i), x, y))),
            ("another count moves nothing", [free(T)], And(*overlapfree(tnn(T, k), x, y)))]


nextof = lambda T, s: If(trk(T, s) + 1 < tcnt(T, town(T, s)), tent(T, town(T, s), trk(T, s) + 1), IntVal(0))
firstof = lambda T, n: If(tcnt(T, n) > 0, tent(T, n, 0), IntVal(0))
parentof = lambda T, n: If(n == troot(T), IntVal(0), town(T, tin(T, n)))


def parts(X, st, p):
    o = X.load(st, 'ptr', p, False).obj
    f, m, h = (X.load(st, 'ptr', PB(o, k), False) for k in (0, 8, 16))
    return o, f, m, h, X.load(st, 'i32', PB(o, 24), False).u


def link(X, st, p, T):
    """the mapped memory holds the trie T"""
    o, f, m, h, root = parts(X, st, p)
    A, B = L.nm(X.row(st, 'i32', m.obj)), L.nm(X.row(st, 'i16', m.obj))
    T = L.nm(T)
    n, s = fresh('tn', I), fresh('ts', I)
    ff = Select(A, 4)
    tn, te = tnode(T, n), tentry(T, s)
    return [("the root", And(troot(T) == root, root == 16)),
            ("the counts", And(Select(A, 8) == tnum(T), Select(A, 12) == tnodes(T))),
            ("nodes are inside", ForAll([n], Implies(tn, And(16 <= n, n + 20 <= ff)), patterns=[tn])),
            ("the words of nodes", ForAll([n], Implies(tn, Select(A, n) == If(tword(T, n), twid(T, n), IntVal(INVALID))), patterns=[tn])),
            ("the parents of nodes", ForAll([n], Implies(tn, Select(A, n + 4) == parentof(T, n)), patterns=[tn])),
            ("the first entries of nodes", ForAll([n], Implies(tn, And(Select(B, n + 8) == 0, Select(A, n + 16) == firstof(T, n))), patterns=[tn])),
            ("entries are inside", ForAll([s], Implies(te, And(16 <= s, s + 12 <= ff)), patterns=[te])),
            ("the letters and children of entries", ForAll([s], Implies(te, And(Select(B, s) == tlet(T, s), Select(A, s + 4) == tchild(T, s))), patterns=[te])),
            ("the next entries", ForAll([s], Implies(te, Select(A, s + 8) == nextof(T, s)), patterns=[te])),
            ("nothing overlaps", tapart(T))]


_views = {}


def rep():
    def view(X, st, p):
        o, f, m, h, root = parts(X, st, p)
        t = tview(L.nm(X.row(st, 'i32', m.obj)), L.nm(X.row(st, 'i16', m.obj)), L.nm(root))
        if t.get_id() not in _views:        # (named, to keep terms small)
            c = Const('trie@%d' % len(_views), TrieV)
            _views[t.get_id()] = (c, t)
            L.DEFS[c.decl().name()] = c == t
        return _views[t.get_id()][0]

    def raw(X, st, p, mine=True):
        o, f, m, h, root = parts(X, st, p)
        A = L.nm(X.row(st, 'i32', m.obj))
        ad = X.addr(p)
        own = PtrDT.mkptr(ad[0], ad[1])
        al, ow = st.g['alive'], st.g['owner']
        return [("its data is memory of its own", And(o != 0, Select(al, o), X.load(st, 'ptr', p, False).off == 0, L.akind(o) == 1, L.okind(o) == 0, L.osize(o) >= 32, Select(ow, o) == own)),
                ("its file is its own", And(f.obj != 0, Select(al, f.obj), f.off == 0, L.akind(f.obj) == 7, L.okind(f.obj) == 0, Select(ow, f.obj) == own, L.fdof(f.obj) == L.mapfd(m.obj))),
                ("its mapping is its own", And(m.obj != 0, Select(al, m.obj), m.off == 0, L.akind(m.obj) == 6, L.okind(m.obj) == 0, Select(ow, m.obj) == own if mine else True)),
                ("the header begins the mapping", And(h.obj == m.obj, h.off == 0)),
                ("the size of the mapping", And(L.osize(m.obj) == Select(A, 0), 16 <= Select(A, 4), Select(A, 4) < Select(A, 0), 1024 <= Select(A, 0), Select(A, 0) < 2**32))]

    wf = lambda X, st, p: raw(X, st, p) + link(X, st, p, view(X, st, p))

    def owned(X, st, p):
        o, f, m, h, root = parts(X, st, p)
        return [o, m.obj, f.obj]
    r = Rep('Trie', [('ptr', 0)], view, wf, owned, eq=lambda a, b: a == b, rowsorts=('ptr', 'i32', 'i16'))
    r.link = link
    r.raw = raw
    r2 = Rep('TrieRaw', [('ptr', 0)], lambda X, st, p: BoolVal(True), raw, owned, eq=lambda a, b: BoolVal(True), rowsorts=('ptr', 'i32', 'i16'))
    return r, r2


def ints(lc):
    """[(name, term at a state)]: the loop's own variables and positions, those of the loops around it"""
    own = [(n, lambda S, n=n: num(S.v(n))) for n in lc.ints(32)] + [(n, lambda S, n=n: num(S.v(n))) for n in lc.ptrs(PB)]
    return own, own + [(n, lambda S, v=v: v.u) for n, v in lc.outer(32)]


def hints_find(lc):
    X, out = lc.X, []
    g = X.spec.ghost.get('triefind')
    if not g:
        return out
    TT, w = g
    if not callable(TT):
        TT = lambda S, T=TT: T
    k = fresh('hk', I)
    own, every = ints(lc)
    for i, I_ in own:
        if not isinstance(lc.entry[i], IV) or not lc.entry[i].isconst():
            continue
        out.append(("%s is in the word" % i, lambda S, I_=I_: And(0 <= I_(S), I_(S) <= L.wlen(w))))
    zero = lambda n: isinstance(lc.entry[n], IV) and lc.entry[n].isconst() and lc.entry[n].cval() == 0
    for i, I_ in own:
        for n, N_ in own:
            if zero(i) and not zero(n):
                out.append(("%s is where the first %s letters lead" % (n, i), lambda S, N_=N_, I_=I_: And(tfind(TT(S), wpre(w, I_(S))) == N_(S), tnode(TT(S), N_(S)))))
    for n, N_ in own:
        for m, M_ in every:
            if m == n or zero(n):
                continue
            if not isinstance(lc.entry.get(m), IV) or lc.entry[m].w == 32:
                here = lambda S, N_=N_, M_=M_: And(tentry(TT(S), N_(S)), town(TT(S), N_(S)) == M_(S))
                out.append(("%s is an entry of node %s" % (n, m), lambda S, N_=N_, M_=M_, here=here: Or(N_(S) == M_(S) + 8, here(S))))
                for i, I_ in every:
                    if i in (n, m):
                        continue

                    def passed(S, N_=N_, M_=M_, I_=I_, here=here):
                        T = TT(S)
                        e = tent(T, M_(S), k)
                        return ForAll([k], Implies(And(here(S), 0 <= k, k < trk(T, N_(S))), tlet(T, e) != L.wat(w, I_(S))), patterns=[e])
                    out.append(("entries before %s of node %s are not letter %s" % (n, m, i), passed))
            if (m, M_) in own:
                out.append(("%s equals %s" % (n, m), lambda S, N_=N_, M_=M_: N_(S) == M_(S)))
    return out


def hints_sib(lc):
    X, out = lc.X, []
    g = X.spec.ghost.get('triesib')
    if not g:
        return out
    T, n, m = g
    for x, X_ in ints(lc)[0]:
        out.append(("%s is an entry at or before the child's" % x, lambda S, X_=X_: And(tentry(T, X_(S)), town(T, X_(S)) == n, trk(T, X_(S)) <= trk(T, tin(T, m)))))
    return out


def install(lib):
    C = lib.contracts
    lib.reps['Trie'], lib.reps['TrieRaw'] = rep()

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    def look(name, f):
        old = C[N + name]

        def c(spec, *a):
            old(spec, *a)
            if spec.mode == 'def':
                f(spec, *a)
        C[N + name] = c

    def find(spec, this, w):
        T, W = spec.X.reps_active['Trie'].view(spec.X, spec.st, this), spec.X.load(spec.st, 'Word', w, False)
        spec.ghost['htries'] = 3
        i = fresh('ti', I)
        T, W = L.nm(T), L.nm(W)
        spec.st.assume(ForAll([i], Implies(And(0 <= i, i < L.wlen(W)), up(T, W, i, tup(T, W, i))), patterns=[MultiPattern(wpre(W, i), L.wat(W, i))]))       # (axiom 'tup')
        spec.st.assume(L.nonul(W))      # (every word meets its invariant: C01)
        spec.ghost['triefind'] = (T, W)
        spec.hints.append(hints_find)
    for n in ('findWord', 'hasWord'):
        look('Trie::%s(Columbus::Word const&) const' % n, find)

    @con('Trie::hasSibling(unsigned int) const')
    def c(spec, this, s):
        T = spec.get('Trie', this)
        spec.requires("the entry exists", tentry(T, s.u))
        spec.returns(trk(T, s.u) + 1 < tcnt(T, town(T, s.u)))

    @con('Trie::getParent(unsigned int) const')
    def c(spec, this, n):
        T = spec.get('Trie', this)
        spec.requires("the node exists", tnode(T, n.u))
        spec.returns(parentof(T, n.u))

    @con('Trie::getSiblingTo(unsigned int, unsigned int) const')
    def c(spec, this, n, m):
        T = spec.get('Trie', this)
        spec.requires("the node is a child of the other", And(tnode(T, m.u), m.u != troot(T), town(T, tin(T, m.u)) == n.u))
        spec.returns(tin(T, m.u))
        if spec.mode == 'def':
            spec.ghost['triesib'] = (T, n.u, m.u)
            spec.hints.append(hints_sib)

    # ---------------------------------------------------------------- building
    def rows(X, st, p):
        o, f, m, h, root = parts(X, st, p)
        return L.nm(X.row(st, 'i32', m.obj)), L.nm(X.row(st, 'i16', m.obj)), root

    def stay(spec, case, this, name, lo=8, hi=None):
        """the bytes of the mapping from lo up to what was used stay"""
        X, st = spec.X, spec.st
        A, B, root = rows(X, st, this)
        ff = L.nm(Select(A, 4)) if hi is None else hi

        def f(new, ret):
            A1, B1, root1 = rows(X, new.st, this)
            k = fresh('bk', I)
            return And(root1 == root, ForAll([k], Implies(And(lo <= k, k + 4 <= ff), Select(A1, k) == Select(A, k)), patterns=[Select(A1, k)]), ForAll([k], Implies(And(lo <= k, k + 2 <= ff), Select(B1, k) == Select(B, k)), patterns=[Select(B1, k)]))
        case.ensures(name, f)
        return A, B, ff

    def below(spec, this):
        A, B, root = rows(spec.X, spec.st, this)
        spec.st.assume(Select(A, 0) < 2**31)       # (a trie stays below 4 GiB)

    @con('Trie::append(char const*, int)')
    def c(spec, this, data, size):
        X = spec.X
        spec.get('TrieRaw', this)
        below(spec, this)
        n = size.s
        spec.requires("a small number of bytes", And(0 < n, n <= 64))
        if isinstance(data, PB):
            spec.requires("the bytes exist", And(data.obj != 0, Select(spec.st.g['alive'], data.obj), data.off >= 0, data.off + n <= L.osize(data.obj)))
        t = spec.may_throw('std::runtime_error')
        t.set('TrieRaw', this, None)
        A, B, ff = stay(spec, t, this, "what is there stays")
        t.ensures("nothing is added", lambda new, ret: Select(rows(X, new.st, this)[0], 4) == ff)
        spec.set('TrieRaw', this, None)
        stay(spec, spec.norm, this, "what is there stays")
        spec.ensures("the bytes are used", lambda new, ret: Select(rows(X, new.st, this)[0], 4) == ff + n)
        spec.returns(ff)
        if isinstance(data, PB):
            D, E = L.nm(X.row(spec.st, 'i32', data.obj)), L.nm(X.row(spec.st, 'i16', data.obj))
            d = data.off

            def copied(new, ret):
                A1, B1, r1 = rows(X, new.st, this)
                return And(*[Implies(k < n, And(Select(A1, ff + k) == Select(D, d + k), Select(B1, ff + k) == Select(E, d + k))) for k in range(0, 64, 4)])
            spec.ensures("the bytes are appended", copied)
        else:
            cells = [(o - data.off, s, v) for (i, o), (s, v) in spec.st.cells.items() if i == data.id and s in ('i32', 'i16')]
            for o, s, v in cells:
                if size.isconst() and 0 <= o < size.cval():
                    spec.ensures("field at %d" % o, lambda new, ret, o=o, s=s, v=v: Select(rows(X, new.st, this)[0 if s == 'i32' else 1], ff + o) == v.u)
        if spec.mode == 'def':
            spec.ghost['grow'] = (this, A, B, ff, n)
            spec.hints.append(hints_grow)

    def hints_grow(lc):
        X = lc.X
        g = X.spec.ghost.get('grow')
        if not g:
            return []
        this, A, B, ff, n = g
        k = fresh('bk', I)
        R = lambda S: rows(X, S.st, this)
        raw = lib.reps['Trie'].raw
        names = [nm for nm, f in raw(X, X.st0, this)]
        out = [("raw: " + nm, lambda S, i=i: raw(X, S.st, this, False)[i][1]) for i, nm in enumerate(names)]
        out.append(("ints stay", lambda S: ForAll([k], Implies(And(8 <= k, k + 4 <= ff), Select(R(S)[0], k) == Select(A, k)), patterns=[Select(R(S)[0], k)])))
        out.append(("letters stay", lambda S: ForAll([k], Implies(And(8 <= k, k + 2 <= ff), Select(R(S)[1], k) == Select(B, k)), patterns=[Select(R(S)[1], k)])))
        out.append(("the rest stays", lambda S: And(Select(R(S)[0], 4) == ff, R(S)[2] == rows(X, X.st0, this)[2])))
        out.append(("its size grows once", lambda S: Or(Select(R(S)[0], 0) == Select(A, 0), And(Select(R(S)[0], 0) == 2 * Select(A, 0), ff + n < Select(R(S)[0], 0)))))

        def other(S):
            o0, f0, m0, h0, r0 = parts(X, X.st0, this)
            o, f, m, h, r = parts(X, S.st, this)
            al, q = L.nm(S.st.g['alive']), fresh('gq', I)
            return And(o == o0, f.obj == f0.obj, Or(m.obj == m0.obj, m.obj >= X.next0),
                       ForAll([q], Implies(And(q < X.next0, q != m0.obj), Select(al, q) == Select(X.alive0, q)), patterns=[Select(al, q)]),
                       ForAll([q], Implies(And(q >= X.next0, q < S.st.g['next'], Select(al, q)), q == m.obj), patterns=[Select(al, q)]),
                       Implies(m.obj != m0.obj, Not(Select(al, m0.obj))))
        out.append(("only the mapping changes", other))
        return out

    @con('Trie::addNewNode(unsigned int)')
    def c(spec, this, parent):
        X = spec.X
        spec.get('TrieRaw', this)
        below(spec, this)
        t = spec.may_throw('std::runtime_error')
        t.set('TrieRaw', this, None)
        A, B, ff = stay(spec, t, this, "what is there stays", 8)
        t.ensures("not less is used", lambda new, ret: Select(rows(X, new.st, this)[0], 4) >= ff)
        spec.set('TrieRaw', this, None)
        spec.st.assume(Select(A, 12) < 2**32 - 1)
        n0 = Select(A, 12)

        root0 = rows(X, spec.st, this)[2]
        spec.ensures("what is there stays", lambda new, ret: (lambda A1, B1, r1, k: And(r1 == root0, ForAll([k], Implies(And(8 <= k, k + 4 <= ff, Or(k + 4 <= 12, 16 <= k)), Select(A1, k) == Select(A, k)), patterns=[Select(A1, k)]),
                                                                                       ForAll([k], Implies(And(16 <= k, k + 2 <= ff), Select(B1, k) == Select(B, k)), patterns=[Select(B1, k)])))(*rows(X, new.st, this), fresh('bk', I)))
        spec.ensures("one more node is counted", lambda new, ret: Select(rows(X, new.st, this)[0], 12) == n0 + 1)
        spec.ensures("its bytes are used", lambda new, ret: Select(rows(X, new.st, this)[0], 4) == ff + 20)
        spec.ensures("it is empty", lambda new, ret: (lambda A1, B1, r1: And(Select(A1, ff) == INVALID, Select(A1, ff + 4) == parent.u, Select(B1, ff + 8) == 0, Select(A1, ff + 12) == 0, Select(A1, ff + 16) == 0))(*rows(X, new.st, this)))
        spec.returns(ff)

    # ---------------------------------------------------------------- inserting
    @con('Trie::addNewSibling(unsigned int, unsigned int, LetterT<unsigned short>)')
    def c(spec, this, node, sibling, l):
        X = spec.X
        T = spec.get('Trie', this)
        n, s = node.u, sibling.u
        l = l.u if isinstance(l, IV) else l
        A, B, root = rows(X, spec.st, this)
        ff = L.nm(Select(A, 4))
        below(spec, this)
        spec.st.assume(tnodes(T) < 2**32 - 1)
        T2 = L.nm(tnn(T, tnodes(T) + 1))
        spec.requires("a letter without its entry, and the node's last entry", And(canadd(T, n, ff + 20, l, ff), If(tcnt(T, n) == 0, s == n + 8, And(tentry(T, s), town(T, s) == n, trk(T, s) == tcnt(T, n) - 1))))
        t = spec.may_throw('std::runtime_error')
        t.set('Trie', this, None)
        U = lambda new: new.get('Trie', this)
        t.ensures("only more nodes may be counted", lambda new, ret: U(new) == tnn(T, tnodes(U(new))))
        spec.set('Trie', this, L.nm(tadd(T2, n, ff + 20, l, ff)))
        spec.returns(ff)
        if spec.mode == 'def':
            spec.st.assume(And(*[near(T_, n_) for T_ in (T, T2) for n_ in (n, s)]) == True)      # (near is true: it only names places)
            spec.ghost['witness'] = lambda st, c, ret: tnn(T, Select(rows(X, st, this)[0], 12))

    def peel(X, st, p):
        """the trie before the last writes to its ints (a guess: what is derived from it is checked)"""
        A, B, root = rows(X, st, p)

        def base(t):
            t = L.DEFS[t.decl().name()].arg(1) if t.decl().name() in L.DEFS else t
            while is_store(t):
                t = t.arg(0)
                t = L.DEFS[t.decl().name()].arg(1) if t.decl().name() in L.DEFS else t
            return base(t.arg(1)) if z3.is_app_of(t, Z3_OP_ITE) else t
        return base(A), A

    def ins(spec, this, w, i):
        X = spec.X
        rep_ = X.reps_active['Trie']
        T, W = L.nm(rep_.view(X, spec.st, this)), L.nm(X.load(spec.st, 'Word', w, False))
        below(spec, this)
        q = fresh('ti', I)
        UT = Const('anyT', TrieV)
        spec.st.assume(ForAll([UT, q], Implies(And(0 <= q, q < L.wlen(W)), up(UT, W, q, tup(UT, W, q))), patterns=[MultiPattern(tfind(UT, wpre(W, q)), L.wat(W, q))]))       # (axiom 'tup')
        spec.st.assume(L.nonul(W))      # (every word meets its invariant: C01)
        spec.ghost['htries'] = 3
        cur = lambda S: rep_.view(X, S.st, this)
        spec.ghost['triefind'] = (cur, W)
        spec.ghost['trieins'] = (this, T, W, cur)
        spec.hints.append(hints_find)
        spec.hints.append(hints_ins)

        def witness(st, c, ret):
            if c.kind != 'ret':
                return None
            A, now = peel(X, st, this)
            U = L.nm(tview(A, rows(X, st, this)[1], L.nm(rows(X, st, this)[2])))
            st.assume(near(U, ret.u))
            return If(tword(U, ret.u), U, tput(U, ret.u, i.u))
        spec.ghost['witness'] = witness
    look('Trie::insertWord(Columbus::Word const&, unsigned int)', ins)

    def hints_ins(lc):
        X, out = lc.X, []
        g = X.spec.ghost.get('trieins')
        if not g:
            return out
        this, T, W, cur = g
        if not any(it[0] in ('loc', 'row', 'all', 'g') for it in X.loopinfo[lc.h].mod):
            return out      # (nothing is written in this loop)
        r = lib.reps['Trie']
        for i, (nm, f) in enumerate(r.raw(X, X.st0, this)):
            out.append(("raw: " + nm, lambda S, i=i: r.raw(X, S.st, this)[i][1]))
        for i, (nm, f) in enumerate(r.link(X, X.st0, this, T)):
            out.append(("linked: " + nm, lambda S, i=i: r.link(X, S.st, this, cur(S))[i][1]))
        out.append(("the nodes stay", lambda S: keeps(T, cur(S))))
        out.append(("the words stay", lambda S: And(tnum(cur(S)) == tnum(T), wordsbut(T, cur(S), IntVal(-1)))))
        out.append(("new nodes are not deeper", lambda S: nodeeper(T, cur(S), W)))

        def other(S):
            own0, own = r.owned(X, X.st0, this), r.owned(X, S.st, this)
            al, q = L.nm(S.st.g['alive']), fresh('gq', I)
            return And(*[Or(o >= X.next0, *[o == x for x in own0]) for o in own] + [
                       ForAll([q], Implies(And(q < X.next0, *[q != o for o in own0]), Select(al, q) == Select(X.alive0, q)), patterns=[Select(al, q)]),
                       ForAll([q], Implies(And(q >= X.next0, q < S.st.g['next'], Select(al, q)), Or(*[q == o for o in own])), patterns=[Select(al, q)])] +
                       [Implies(Select(al, o), Or(*[o == x for x in own])) for o in own0])
        out.append(("only its own data changes", other))
        return out
