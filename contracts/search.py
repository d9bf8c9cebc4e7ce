"""The fuzzy look-up (C09, C10): ErrorMatrix as its user sees it, LevenshteinIndex::searchRecursive and findWords."""
from z3 import *
import cxx
import logic as L
import vc
import errors, store, leven, results
from vc import *
from logic import fresh, I, WordS
from lists import N
from errors import ev, sub, EV
from results import VM, MD
from store import *
from leven import trie, longest

EMV = DeclareSort('ErrorMatrixV')
L.viewsort('ErrorMatrix', EMV)
L.EQV['ErrorMatrix'] = lambda a, b: a == b
cxx.CLASS_SIZES.update({'ErrorMatrix': 24})
emr, emc, cell = Function('emr', EMV, I), Function('emc', EMV, I), Function('emcell', EMV, I, I, I)
emset = Function('emset', EMV, I, I, I, EMV)
tms = Function('tms', I, I, I)              # a times b
_M, _r, _c, _v, _a, _b, _d = Const('M', EMV), Int('r'), Int('c'), Int('v'), Int('a'), Int('b'), Int('d')
_s = emset(_M, _r, _c, _v)
L.axiom('emset', ['emset'], ForAll([_M, _r, _c, _v], And(emr(_s) == emr(_M), emc(_s) == emc(_M)), patterns=[_s]))
_x, _y = Int('x'), Int('y')
L.axiom('emsetat', ['emset'], ForAll([_M, _r, _c, _v, _x, _y], cell(_s, _x, _y) == If(And(_x == _r, _y == _c), _v, cell(_M, _x, _y)), patterns=[cell(_s, _x, _y)]))
L.axiom('tms', ['tms'], ForAll([_a, _b], And(Implies(_a <= 0, tms(_a, _b) == 0), Implies(_a == 1, tms(_a, _b) == _b)), patterns=[tms(_a, _b)]))

# ---------------------------------------------------------------- the error of a word: DW(E, q, w, c) compares all of w with the first c letters of q
ZE = L.zs('ErrorValues')
DW, DL = Function('DW', ZE, WordS, WordS, I, I), Function('DL', ZE, WordS, WordS, I, I)    # DL = DW, but does not unfold
_E, _q, _w = Const('E', ZE), Const('q', WordS), Const('w', WordS)
ins, dele, enddel, trans = [(lambda E, o=o: ev(E, o)) for o in (errors.INS, errors.DEL, errors.ENDDEL, errors.TRANS)]
start = lambda E, n: If(n >= ev(E, errors.LIMIT), ev(E, errors.STARTINS), ev(E, errors.INS))
mn = lambda a, b: If(a <= b, a, b)


def rhs(D, E, q, w, c):
    """the recurrence, for a word of at least one letter and c >= 1"""
    w1 = wpop(w)
    i = D(E, q, w, c - 1) + ins(E)
    d = D(E, q, w1, c) + If(c >= L.wlen(q), enddel(E), dele(E))
    s = D(E, q, w1, c - 1) + sub(E, L.wat(q, c - 1), wlast(w))
    m = mn(i, mn(d, s))
    t = D(E, q, wpop(w1), c - 2) + trans(E)
    return If(And(c > 1, L.wlen(w) > 1, L.wat(q, c - 1) == wlast(w1), L.wat(q, c - 2) == wlast(w)), mn(m, t), m)


def definition(DW, DL):
    return [ForAll([_E, _q, _w, _c], And(
        DW(_E, _q, _w, _c) == DL(_E, _q, _w, _c),
        Implies(_c == 0, DL(_E, _q, _w, _c) == tms(L.wlen(_w), start(_E, L.wlen(_q)))),
        Implies(And(L.wlen(_w) == 0, _c > 0), DL(_E, _q, _w, _c) == tms(_c, ins(_E))),
        Implies(And(L.wlen(_w) > 0, _c > 0), DL(_E, _q, _w, _c) == rhs(DL, _E, _q, _w, _c))), patterns=[DW(_E, _q, _w, _c)])]


L.axiom('DW', ['DW'], definition(DW, DL)[0])
err = lambda E, q, w: DL(E, q, w, L.wlen(q))
nonneg = lambda E: And(*[ev(E, o) >= 0 for o in (errors.INS, errors.DEL, errors.ENDDEL, errors.STARTINS, errors.SUBST, errors.TRANS)])
# no word below node n is within mx although every column of n's row is over it, and every column of the row before plus the transposition error
# (lemmas 'below a branch given up'): b1, b2 name a column that is not
b1, b2 = Function('bigcol1', ZE, WordS, WordS, I, I), Function('bigcol2', ZE, WordS, WordS, I, I)
_T, _m, _nn, _mx = Const('T', TrieV), Int('m'), Int('n'), Int('mx')
small = lambda E, q, w, mx: Or(And(0 <= b1(E, q, w, mx), b1(E, q, w, mx) <= L.wlen(q), DL(E, q, w, b1(E, q, w, mx)) <= mx),
                               And(0 <= b2(E, q, w, mx), b2(E, q, w, mx) <= L.wlen(q), DL(E, q, wpop(w), b2(E, q, w, mx)) + trans(E) <= mx))
goodcosts = lambda E: And(nonneg(E), ForAll([_a, _b], sub(E, _a, _b) >= 0, patterns=[sub(E, _a, _b)]))
pruned = Function('pruned', TrieV, ZE, WordS, I, I, BoolSort())     # only a trigger
L.axiom('pruned', ['pruned'], ForAll([_T, _E, _q, _mx, _nn, _m], Implies(
    And(pruned(_T, _E, _q, _mx, _nn), tnode(_T, _nn), L.wlen(tpath(_T, _nn)) >= 1, under(_T, _nn, _m), _m != _nn, err(_E, _q, tpath(_T, _m)) <= _mx),
    small(_E, _q, tpath(_T, _nn), _mx)), patterns=[MultiPattern(pruned(_T, _E, _q, _mx, _nn), under(_T, _nn, _m))]))

# ---------------------------------------------------------------- how often a record is among the first n of an array
ZM = L.zs(MD)
mcel = Function('mcel', L.vel(VM, Const('v', L.zs(VM))).sort(), I, ZM, I)
_A, _y2, _x2 = Const('A', L.vel(VM, Const('v', L.zs(VM))).sort()), Const('y', ZM), Const('x', ZM)
_i, _j = Ints('i j')
mcnt = lambda v, x: mcel(L.vel(VM, v), L.vlen(VM, v), x)
L.axiom('mcel', ['mcel'], ForAll([_A, _i, _y2, _j, _x2], Implies(And(0 <= _i, _j == _i + 1), mcel(Store(_A, _i, _y2), _j, _x2) == mcel(_A, _i, _x2) + If(_y2 == _x2, 1, 0)), patterns=[mcel(Store(_A, _i, _y2), _j, _x2)]))
L.axiom('mcel0', ['mcel'], ForAll([_A, _i, _x2], And(mcel(_A, _i, _x2) >= 0, Implies(_i <= 0, mcel(_A, _i, _x2) == 0)), patterns=[mcel(_A, _i, _x2)]))
_vv = Const('v', L.zs(VM))
# a permutation keeps the counts
L.axiom('mcelsorted', ['mcel', 'sortedmatches'], ForAll([_vv, _x2], mcnt(results.sortedmatches(_vv), _x2) == mcnt(_vv, _x2), patterns=[mcnt(results.sortedmatches(_vv), _x2)]))


# the smallest error of the word numbered w among the first n records of A, NOERR when there is none
NOERR = 2**31
mb, mbpos, mpos = Function('mb', _A.sort(), I, I, I), Function('mbpos', _A.sort(), I, I, I), Function('mpos', _A.sort(), I, ZM, I)
_w2 = Int('w')
wnr, wer = (lambda x: L.rget(MD, x, 16)), (lambda x: L.rget(MD, x, 20))
mbv = lambda v, w: mb(L.vel(VM, v), L.vlen(VM, v), w)


def mbstep(A, i, w):
    x = Select(A, i)
    return If(And(wnr(x) == w, wer(x) < mb(A, i, w)), wer(x), mb(A, i, w))


L.axiom('mb0', ['mb'], ForAll([_A, _i, _w2], And(mb(_A, _i, _w2) <= NOERR, Implies(_i <= 0, mb(_A, _i, _w2) == NOERR)), patterns=[mb(_A, _i, _w2)]))
L.axiom('mb', ['mb'], ForAll([_A, _i, _w2], Implies(_i >= 0, mb(_A, _i + 1, _w2) == mbstep(_A, _i, _w2)), patterns=[MultiPattern(mb(_A, _i, _w2), Select(_A, _i))]))
# by induction on n from lemmas 'positions': where the smallest error is, that none is smaller, and where a record that is counted is
_mbp = mbpos(_A, _i, _w2)
L.axiom('mbpos', ['mb'], ForAll([_A, _i, _w2], Or(mb(_A, _i, _w2) == NOERR, And(0 <= _mbp, _mbp < _i, wnr(Select(_A, _mbp)) == _w2, wer(Select(_A, _mbp)) == mb(_A, _i, _w2), mcel(_A, _i, Select(_A, _mbp)) >= 1)), patterns=[mb(_A, _i, _w2)]))
L.axiom('mbmin', ['mb'], ForAll([_A, _i, _w2, _j], Implies(And(0 <= _j, _j < _i, wnr(Select(_A, _j)) == _w2), mb(_A, _i, _w2) <= wer(Select(_A, _j))), patterns=[MultiPattern(mb(_A, _i, _w2), Select(_A, _j))]))
_mp = mpos(_A, _i, _x2)
L.axiom('mpos', ['mcel', 'mb'], ForAll([_A, _i, _x2], Or(mcel(_A, _i, _x2) == 0, And(0 <= _mp, _mp < _i, Select(_A, _mp) == _x2)), patterns=[mcel(_A, _i, _x2)]))


# what is there is counted
mcin = Function('mcin', L.zs(VM), I, BoolSort())
L.axiom('mcin', ['mcin'], ForAll([_vv, _i], And(mcin(_vv, _i), Implies(And(0 <= _i, _i < L.vlen(VM, _vv)), mcnt(_vv, L.vat(VM, _vv, _i)) >= 1)), patterns=[mcin(_vv, _i)]))


def lemmas_positions():
    A, x = Const('pA', _A.sort()), Const('px', ZM)
    n, w, j, p = Ints('pn pw pj pp')
    st = mbstep(A, n, w)
    at = lambda k: Select(A, k)
    cn = Int('pc')          # the count at n; at n + 1 it is
    c1 = cn + If(at(n) == x, 1, 0)
    q = Int('pq')
    below = lambda m, P: And(0 <= P, P < m)
    return [("positions: the smallest is somewhere", [n >= 0, Or(mb(A, n, w) == NOERR, And(below(n, p), wnr(at(p)) == w, wer(at(p)) == mb(A, n, w)))],
             Or(st == NOERR, And(below(n + 1, p), wnr(at(p)) == w, wer(at(p)) == st), And(wnr(at(n)) == w, wer(at(n)) == st))),
            ("positions: none is smaller", [n >= 0, ForAll([j], Implies(And(below(n, j), wnr(at(j)) == w), mb(A, n, w) <= wer(at(j))), patterns=[at(j)]), below(n + 1, q), wnr(at(q)) == w], st <= wer(at(q))),
            ("positions: what is counted is there", [n >= 0, cn >= 0, Or(cn == 0, And(below(n, p), at(p) == x))], Or(c1 == 0, And(below(n + 1, p), at(p) == x), at(n) == x)),
            ("positions: what is there is counted", [n >= 0, cn >= 0, Implies(And(below(n, q), at(q) == x), cn >= 1), below(n + 1, q), at(q) == x], c1 >= 1)]


def hitw(T, E, q, mx, w):
    """the word numbered w is one that must be reported"""
    m = tnd(T, w)
    return And(tword(T, m), twid(T, m) == w, err(E, q, tpath(T, m)) <= mx)


def hit(T, E, q, mx, x):
    """x is what must be reported for the word numbered as x says"""
    m = tnd(T, L.rget(MD, x, 16))
    d = err(E, q, tpath(T, m))
    return And(tword(T, m), twid(T, m) == L.rget(MD, x, 16), L.rget(MD, x, 0) == L.emptyw, L.rget(MD, x, 20) == d, d <= mx)


# different words have different numbers: otherwise ua, ub are two words with one number
numbered, ua, ub = Function('numbered', TrieV, BoolSort()), Function('ua', TrieV, I), Function('ub', TrieV, I)
L.axiom('numbered', ['numbered'], ForAll([_T], Or(numbered(_T), And(tword(_T, ua(_T)), tword(_T, ub(_T)), ua(_T) != ub(_T), twid(_T, ua(_T)) == twid(_T, ub(_T)))), patterns=[numbered(_T)]))
L.axiom('tnd', ['numbered'], ForAll([_T, _nn], Implies(And(numbered(_T), tword(_T, _nn)), tnd(_T, twid(_T, _nn)) == _nn), patterns=[MultiPattern(numbered(_T), tword(_T, _nn))]))


LIM = 2**30


def fits(spec, E, q, longest):
    """assumed: errors and their sums for words of the index fit an int"""
    w, c, a, b = fresh('fw', WordS), fresh('fc', I), fresh('fa', I), fresh('fb', I)
    st = spec.st
    st.assume(ForAll([w, c], Implies(And(L.wlen(w) <= longest, 0 <= c, c <= L.wlen(q)), And(0 <= DL(E, q, w, c), DL(E, q, w, c) < LIM)), patterns=[DL(E, q, w, c)]))
    # (and of the table's last row and column, which are one longer)
    s0 = start(E, L.wlen(q))
    st.assume(ForAll([a], Implies(And(0 <= a, a <= L.wlen(q) + 1, ins(E) >= 0), And(0 <= tms(a, ins(E)), tms(a, ins(E)) < LIM)), patterns=[tms(a, ins(E))]))
    st.assume(ForAll([a, b], Implies(And(0 <= a, a <= longest + 1, b == s0, b >= 0), And(0 <= tms(a, b), tms(a, b) < LIM)), patterns=[tms(a, b)]))
    for o in (errors.INS, errors.DEL, errors.ENDDEL, errors.STARTINS, errors.TRANS):
        st.assume(ev(E, o) < LIM - 20000)
    st.assume(ForAll([a, b], sub(E, a, b) < LIM - 20000, patterns=[sub(E, a, b)]))


def rowis(M, r, E, q, w, D=DL):
    c = fresh('rc', I)
    M, r = L.nm(M), L.nm(simplify(r))
    return ForAll([c], Implies(And(0 <= c, c <= L.wlen(q)), cell(M, r, c) == D(E, q, w, c)), patterns=[cell(M, r, c)] + [DL(E, q, w, c)] * (not L.badpat(w)))


def col0(M, E, q):
    r = fresh('rr', I)
    M = L.nm(M)
    return ForAll([r], Implies(And(0 <= r, r <= emr(M)), cell(M, r, 0) == tms(r, start(E, L.wlen(q)))), patterns=[cell(M, r, 0)])


def samerows(M, M2, d):
    r, c = fresh('rr', I), fresh('rc', I)
    M, M2 = L.nm(M), L.nm(M2)
    return And(emr(M2) == emr(M), emc(M2) == emc(M), ForAll([r, c], Implies(And(0 <= r, r < d), cell(M2, r, c) == cell(M, r, c)), patterns=[cell(M2, r, c), cell(M, r, c)]))


def hints(lc):
    spec = lc.X.spec
    g = spec.ghost.get('search')
    if not g:
        return []
    out = []
    T, E, q, mx, node, depth, em0, mt0, emp, mtp, d0 = g
    EM = lambda S: S.load('ErrorMatrix', emp(S))
    MT = lambda S: S.load('IndexMatches', mtp)
    w = tpath(T, node)
    out.append(("earlier rows", lambda S: samerows(em0(S), EM(S), depth if d0 is None else d0)))
    out.append(("column 0", lambda S: col0(EM(S), E, q)))
    if d0 is None:
        out.append(("finished row", lambda S: rowis(EM(S), depth, E, q, w)))
        out.append(("matrix after the row", lambda S: samerows(em0(S), EM(S), depth)))
        for n in lc.ints(64):
            def part(S, n=n):
                c = fresh('rc', I)
                M = L.nm(EM(S))
                return ForAll([c], Implies(And(0 <= c, c < num(S.v(n)), c <= L.wlen(q)), cell(M, depth, c) == DW(E, q, w, c)), patterns=[cell(M, L.nm(depth), c), DL(E, q, w, c)])
            out.append(("row up to %s" % n, part))
    else:
        out.append(("its size", lambda S: And(emr(EM(S)) > spec.ghost['longest'], emc(EM(S)) == L.wlen(q) + 1)))
        out.append(("first row", lambda S: rowis(EM(S), IntVal(0), E, q, L.emptyw, DW)))
    for n in lc.ints(32):
        if lc.entry[n].w != 32:
            continue
        out.append(("%s is an entry" % n, lambda S, n=n: Or(S.v(n).u == 0, And(tentry(T, S.v(n).u), town(T, S.v(n).u) == node))))

        def count(S, n=n):
            x = fresh('mx', ZM)
            v = L.nm(MT(S))
            h = hit(T, E, q, mx, x)
            m = tnd(T, L.rget(MD, x, 16))
            s = S.v(n).u
            return ForAll([x], mcnt(v, x) == mcnt(mt0, x) + If(And(h, under(T, node, m), Or(m == node, s == 0, way(T, node, m) < trk(T, s))), 1, 0), patterns=[mcel(L.vel(VM, v), L.vlen(VM, v), x)])
        out.append(("matches so far %s" % n, count))
    return out


def lemmas_search():
    """below a branch given up: one more letter keeps the row over the limit (then, by induction on the letters, so does every longer word)"""
    E, q, w = Const('lE', ZE), Const('lq', WordS), Const('lw', WordS)
    mx, c, k = Ints('lmx lc lk')
    p = wpop(w)
    nq = L.wlen(q)
    over = lambda v, d=0: ForAll([k], Implies(And(0 <= k, k <= nq), DL(E, q, v, k) + d > mx), patterns=[DL(E, q, v, k)])
    hyp = [L.wlen(w) >= 2, nonneg(E), ForAll([_a, _b], sub(E, _a, _b) >= 0, patterns=[sub(E, _a, _b)]), over(p), over(wpop(p), trans(E))]
    a, b = Ints('la lb')
    return [("a multiple grows with the factor", [a >= 0, b >= 0, tms(a + 1, b) == tms(a, b) + b], tms(a + 1, b) >= tms(a, b)),
            ("below a branch given up: column 0", hyp + [tms(L.wlen(w), start(E, nq)) >= tms(L.wlen(p), start(E, nq)), DW(E, q, w, 0) == DL(E, q, w, 0), DW(E, q, p, 0) == DL(E, q, p, 0)], DL(E, q, w, 0) > mx),
            ("below a branch given up: next column", hyp + [1 <= c, c <= nq, DL(E, q, w, c - 1) > mx], DW(E, q, w, c) > mx),
            ("below a branch given up: the next row is over the limit, too", hyp + [over(w)], And(over(w), over(p, trans(E))))]


def install(lib):
    C = lib.contracts

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    # ---------------------------------------------------------------- the search
    def common(spec, this, e, query, max_):
        v, E, q = spec.get('LevenshteinIndex', this), spec.get('ErrorValues', e), spec.get('Word', query)
        T = trie(v)
        fits(spec, E, q, longest(v))
        spec.st.assume(longest(v) < 2**31)
        spec.requires("errors are not negative", goodcosts(E))
        spec.requires("different words have different numbers", numbered(T))
        return v, E, q, T, max_.s

    @con('LevenshteinIndex::searchRecursive(Columbus::Word const&, unsigned int, Columbus::ErrorValues const&, LetterT<unsigned short>, LetterT<unsigned short>, unsigned long, Columbus::ErrorMatrix&, Columbus::IndexMatches&, int) const')
    def c(spec, this, query, node, e, letter, prev, depth, em, matches, max_):
        v, E, q, T, mx = common(spec, this, e, query, max_)
        M, v0 = spec.get('ErrorMatrix', em), spec.get('IndexMatches', matches)
        w = tpath(T, node.u)
        d = depth.u
        spec.requires("the node exists", tnode(T, node.u))
        spec.requires("the depth is the node's", And(d == L.wlen(w), d >= 1))
        spec.requires("the letter is the node's", letter.u == wlast(w))
        spec.requires("the previous letter is the parent's", prev.u == If(d > 1, wlast(wpop(w)), 0))
        spec.requires("the matrix is large enough", And(emr(M) > longest(v), emc(M) == L.wlen(q) + 1))
        spec.requires("the rows before are there", And(rowis(M, d - 1, E, q, wpop(w)), Implies(d > 1, rowis(M, d - 2, E, q, wpop(wpop(w))))))
        spec.requires("column 0 is there", col0(M, E, q))
        spec.set('ErrorMatrix', em, None)
        spec.set('IndexMatches', matches, None)
        if spec.mode == 'def':
            spec.ghost['search'] = (T, E, q, mx, node.u, d, lambda S: M, v0, lambda S: em, matches, None)
            spec.hints.append(hints)
            spec.st.assume(pruned(T, E, q, mx, node.u))
        V = lambda new: new.get('IndexMatches', matches)
        x = fresh('mx', ZM)
        spec.ensures("earlier rows stay", lambda new, ret: samerows(M, new.get('ErrorMatrix', em), d))
        spec.ensures("column 0 stays", lambda new, ret: col0(new.get('ErrorMatrix', em), E, q))
        spec.ensures("exactly the words below within the limit are added, once, with their error", lambda new, ret: (lambda w: ForAll([x], mcnt(w, x) == mcnt(v0, x) + If(
            And(hit(T, E, q, mx, x), under(T, node.u, tnd(T, L.rget(MD, x, 16)))), 1, 0), patterns=[mcnt(w, x)]))(L.nm(V(new))))

    @con('LevenshteinIndex::findWords(Columbus::Word const&, Columbus::ErrorValues const&, int, Columbus::IndexMatches&) const')
    def c(spec, this, query, e, max_, matches):
        v, E, q, T, mx = common(spec, this, e, query, max_)
        v0 = spec.get('IndexMatches', matches)
        spec.set('IndexMatches', matches, None)
        if spec.mode == 'def':
            emp = lambda S: next(PA(i, 0) for (i, o), (s, _) in S.st.cells.items() if s == 'ErrorMatrix' and o == 0)
            spec.ghost['longest'] = longest(v)
            spec.ghost['search'] = (T, E, q, mx, troot(T), None, lambda S: S.load('ErrorMatrix', emp(S)), v0, emp, matches, 1)
            spec.hints.append(hints)
        V = lambda new: new.get('IndexMatches', matches)
        x, i, j = fresh('mx', ZM), fresh('i', I), fresh('j', I)
        er = lambda w, k: L.rget(MD, L.vat(VM, w, k), 20)
        spec.ensures("exactly the words within the limit are added, once, with their error", lambda new, ret: (lambda w: ForAll([x], mcnt(w, x) == mcnt(v0, x) + If(hit(T, E, q, mx, x), 1, 0), patterns=[mcnt(w, x), mcnt(v0, x)]))(L.nm(V(new))))
        wv = fresh('wv', I)
        errw = lambda wv: err(E, q, tpath(T, tnd(T, wv)))
        k = fresh('k', I)
        spec.ensures("every match is a word within the limit or was there before", lambda new, ret: (lambda w: ForAll([k], Implies(And(0 <= k, k < L.vlen(VM, w)), And(mcin(w, k), Or(hit(T, E, q, mx, L.vat(VM, w, k)), mcnt(v0, L.vat(VM, w, k)) >= 1))), patterns=[L.vat(VM, w, k)]))(L.nm(V(new))))
        spec.ensures("every word within the limit is among them", lambda new, ret: (lambda w: ForAll([wv], Implies(hitw(T, E, q, mx, wv), mcnt(w, L.rmk(MD, [L.emptyw, wv, errw(wv)])) >= 1), patterns=[mbv(w, wv)]))(L.nm(V(new))))
        mnn = lambda a, b: If(a <= b, a, b)
        spec.ensures("by word number", lambda new, ret: (lambda w: ForAll([wv], mbv(w, wv) == mnn(mbv(v0, wv), If(hitw(T, E, q, mx, wv), err(E, q, tpath(T, tnd(T, wv))), IntVal(NOERR))), patterns=[mbv(w, wv)]))(L.nm(V(new))))
        spec.ensures("the matches are in growing order of error", lambda new, ret: (lambda w: ForAll([i, j], Implies(And(0 <= i, i < j, j < L.vlen(VM, w)), results.serr(L.vat(VM, w, i)) <= results.serr(L.vat(VM, w, j))),
            patterns=[MultiPattern(L.vat(VM, w, i), L.vat(VM, w, j))]))(L.nm(V(new))))
