"""Contracts of LevenshteinIndex: contents (C08)."""
from z3 import *
import cxx
import logic as L
import vc
import store
from vc import *
from logic import fresh, I
from lists import alias, pimpl, at, N
from store import tnode, tfind, tpath, tword, twid, tnum, tnodes, has

MS = ('map', 'i32', 'i64')
LI = ('rec', ((0, MS), (88, 'i64'), (112, 'i64'), (120, 'Trie')))
cxx.CLASS_SIZES.update({'LevenshteinIndex': 8})
alias('LevenshteinIndex', LI)
counts, maxc, longest, trie = [(lambda v, o=o: L.rget(LI, v, o)) for o in (0, 88, 112, 120)]
li = lambda *a: L.rmk(LI, list(a))
cnt = lambda v, w: If(L.mhas(MS, counts(v), w), L.mget(MS, counts(v), w), IntVal(0))


def depth(v):
    n = fresh('dn', I)
    v = L.nm(v)
    return ForAll([n], Implies(tnode(trie(v), n), L.wlen(tpath(trie(v), n)) <= longest(v)), patterns=[tnode(trie(v), n)])


def inv(v):
    """what is true of every index: the highest count is the highest count"""
    k, j = fresh('ik', I), fresh('ij', I)
    v = L.nm(v)
    m = counts(v)
    n = fresh('in', I)
    T = trie(v)
    return [("every word has a count", ForAll([n], Implies(store.tword(T, n), L.mhas(MS, m, store.twid(T, n))), patterns=[store.tword(T, n)])),
            ("no count is above the highest", ForAll([k], Implies(L.mhas(MS, m, k), And(1 <= L.mget(MS, m, k), L.mget(MS, m, k) <= maxc(v))), patterns=[L.mhas(MS, m, k)])),
            ("some word has the highest count", Or(maxc(v) == 0, Exists([j], And(L.mhas(MS, m, j), L.mget(MS, m, j) == maxc(v)))))]


def install(lib):
    C = lib.contracts

    def view(X, st, o):
        return li(at(X, st, MS, o, 0), at(X, st, 'i64', o, 88), at(X, st, 'i64', o, 112), at(X, st, 'Trie', o, 120))
    lib.reps['LevenshteinIndex'] = pimpl('LevenshteinIndex', [(MS, 0), ('i64', 88), ('i64', 112), ('Trie', 120)], 128, view,
                                         lambda X, st, o: inv(view(X, st, o)) + [("no node is deeper than the longest word", depth(view(X, st, o)))])
    lib.reps['LevenshteinIndex'].movedfrom = lambda X, st, p: BoolVal(False)
    lib.invariants['LevenshteinIndex'] = lambda v: inv(v) + [("no node is deeper than the longest word", depth(v))]

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    @con('LevenshteinIndex::LevenshteinIndex()')
    def c(spec, this):
        spec.may_throw('std::runtime_error')
        spec.set('LevenshteinIndex', this, None)
        n = fresh('tn', I)
        V = lambda new: new.get('LevenshteinIndex', this)
        spec.ensures("a new index is empty", lambda new, ret: And(L.eqv(MS, counts(V(new)), L.mempty(MS)), maxc(V(new)) == 0, tnum(trie(V(new))) == 0,
                                                               ForAll([n], Not(tword(trie(V(new)), n)), patterns=[tword(trie(V(new)), n)])))

    @con('LevenshteinIndex::~LevenshteinIndex()')
    def c(spec, this):
        spec.get('LevenshteinIndex', this)
        spec.destroy('LevenshteinIndex', this)

    @con('LevenshteinIndex::getDefaultError()')
    def c(spec):
        spec.returns(IntVal(100))

    @con('LevenshteinIndex::insertWord(Columbus::Word const&, unsigned int)')
    def c(spec, this, w, i):
        v, W = spec.get('LevenshteinIndex', this), spec.get('Word', w)
        T = trie(v)
        spec.requires("the number is valid", i.u != store.INVALID)
        spec.requires("a word keeps its number", Implies(has(T, W), twid(T, tfind(T, W)) == i.u))
        spec.st.assume(cnt(v, i.u) < 2**63)
        some = L.wlen(W) > 0
        f = spec.may_throw('std::runtime_error', some)
        V = lambda new: new.get('LevenshteinIndex', this)
        U = lambda new: trie(V(new))
        f.set('LevenshteinIndex', this, None)
        f.ensures("the counts stay", lambda new, ret: And(L.eqv(MS, counts(V(new)), counts(v)), maxc(V(new)) == maxc(v), tnum(U(new)) == tnum(T)))
        f.ensures("the words stay", lambda new, ret: store.wordsbut(T, U(new), IntVal(-1)))
        f.ensures("the nodes stay", lambda new, ret: store.keeps(T, U(new)))
        spec.set('LevenshteinIndex', this, None)
        n = fresh('n', I)
        spec.ensures("nothing changes for an empty word", lambda new, ret: Implies(Not(some), L.eqv('LevenshteinIndex', V(new), v)))
        c1 = cnt(v, i.u) + 1
        spec.ensures("the word counts once more, no other does", lambda new, ret: Implies(some, L.eqv(MS, counts(V(new)), L.mput(MS, counts(v), i.u, c1))))
        spec.ensures("the highest count", lambda new, ret: Implies(some, maxc(V(new)) == If(c1 > maxc(v), c1, maxc(v))))
        spec.ensures("the nodes stay", lambda new, ret: store.keeps(T, U(new)))
        spec.ensures("other words stay", lambda new, ret: Implies(some, store.wordsbut(T, U(new), tfind(U(new), W))))
        spec.ensures("the word is there with its number", lambda new, ret: Implies(some, And(has(U(new), W), twid(U(new), tfind(U(new), W)) == i.u)))
        spec.ensures("the number of words", lambda new, ret: Implies(some, tnum(U(new)) == tnum(T) + If(has(T, W), 0, 1)))

    @con('LevenshteinIndex::hasWord(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(has(trie(spec.get('LevenshteinIndex', this)), spec.get('Word', w)))

    @con('LevenshteinIndex::wordCount(unsigned int) const')
    def c(spec, this, i):
        spec.returns(cnt(spec.get('LevenshteinIndex', this), i.u))

    @con('LevenshteinIndex::maxCount() const')
    def c(spec, this):
        spec.returns(maxc(spec.get('LevenshteinIndex', this)))

    @con('LevenshteinIndex::numNodes() const')
    def c(spec, this):
        spec.returns(tnodes(trie(spec.get('LevenshteinIndex', this))))

    @con('LevenshteinIndex::numWords() const')
    def c(spec, this):
        spec.returns(tnum(trie(spec.get('LevenshteinIndex', this))))
