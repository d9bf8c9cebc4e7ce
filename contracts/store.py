"""Contracts of Trie (as its clients see it) and WordStore (C07, part of C19, C20)."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, StrS, WordS
from lists import pimpl, at, alias, VW, count_hints, iter_range

N = 'Columbus::'
VO = ('vec', 'i32')
INVALID = 2**32 - 1
cxx.CLASS_SIZES.update({'Trie': 8, 'WordStore': 8})

# ---------------------------------------------------------------- the value of a trie
TrieV = DeclareSort('TrieV')
L.viewsort('Trie', TrieV)
L.EQV['Trie'] = lambda a, b: a == b
tnode = Function('tnode', TrieV, I, BoolSort())        # the offset of a node
tfind = Function('tfind', TrieV, WordS, I)             # the node a letter sequence leads to, 0 if there is none
tpath = Function('tpath', TrieV, I, WordS)             # the letter sequence leading to a node
tword = Function('tword', TrieV, I, BoolSort())        # a word was inserted there
twid = Function('twid', TrieV, I, I)                   # with this number
tnum, tnodes = Function('tnum', TrieV, I), Function('tnodes', TrieV, I)      # how many words and nodes there are
_T, _n, _w, _i0 = Const('T', TrieV), Int('n'), Const('w', WordS), Int('i0')
L.axiom('tnode', ['tnode'], ForAll([_T, _n], Implies(tnode(_T, _n), And(0 < _n, _n < 2**32, tfind(_T, tpath(_T, _n)) == _n)), patterns=[tnode(_T, _n)]))
L.axiom('tfind', ['tfind'], ForAll([_T, _w], And(0 <= tfind(_T, _w), tfind(_T, _w) < 2**32, Implies(tfind(_T, _w) != 0, And(tnode(_T, tfind(_T, _w)), tpath(_T, tfind(_T, _w)) == _w))), patterns=[tfind(_T, _w)]))
L.axiom('twid', ['twid'], ForAll([_T, _n], And(0 <= twid(_T, _n), twid(_T, _n) < INVALID), patterns=[twid(_T, _n)]))
L.axiom('tnum', ['tnum'], ForAll([_T], And(0 <= tnum(_T), tnum(_T) < 2**32), patterns=[tnum(_T)]))
L.axiom('tnodes', ['tnodes'], ForAll([_T], And(0 <= tnodes(_T), tnodes(_T) < 2**32), patterns=[tnodes(_T)]))
L.axiom('tword', ['tword'], ForAll([_T, _n], Implies(tword(_T, _n), And(tnode(_T, _n), L.wlen(tpath(_T, _n)) > 0)), patterns=[tword(_T, _n)]))
has = lambda T, w: And(tfind(T, w) != 0, tword(T, tfind(T, w)))


# ---- walking down: node n has children 0..tcnt-1, its k-th entry is tent(n, k); an entry s belongs to node town(s) as number trk(s)
tcnt, tent = Function('tcnt', TrieV, I, I), Function('tent', TrieV, I, I, I)
tentry, town, trk, tlet, tchild = Function('tentry', TrieV, I, BoolSort()), Function('town', TrieV, I, I), Function('trk', TrieV, I, I), Function('tlet', TrieV, I, I), Function('tchild', TrieV, I, I)
wpop = Function('wpop', WordS, WordS)           # a word without its last letter
wlast = Function('wlast', WordS, I)
under, way = Function('under', TrieV, I, I, BoolSort()), Function('way', TrieV, I, I, I)    # m is in the subtree of n; in that of which child
tnd = Function('tnd', TrieV, I, I)              # the node of the word with a number
troot = lambda T: tfind(T, L.emptyw)
_s, _m, _k = Ints('s m k')
L.axiom('troot', ['tfind'], ForAll([_T], And(tfind(_T, L.emptyw) != 0, tpath(_T, tfind(_T, L.emptyw)) == L.emptyw), patterns=[tfind(_T, L.emptyw)]))
L.axiom('tcnt', ['tcnt'], ForAll([_T, _n], tcnt(_T, _n) >= 0, patterns=[tcnt(_T, _n)]))
_e = tent(_T, _n, _k)
L.axiom('tent', ['tent'], ForAll([_T, _n, _k], Implies(And(tnode(_T, _n), 0 <= _k, _k < tcnt(_T, _n)), And(tentry(_T, _e), town(_T, _e) == _n, trk(_T, _e) == _k)), patterns=[_e]))
L.axiom('tentry', ['tentry'], ForAll([_T, _s], Implies(tentry(_T, _s), And(
    0 < _s, _s < 2**32, tnode(_T, town(_T, _s)), 0 <= trk(_T, _s), trk(_T, _s) < tcnt(_T, town(_T, _s)), tent(_T, town(_T, _s), trk(_T, _s)) == _s,
    tnode(_T, tchild(_T, _s)), 0 < tlet(_T, _s), tlet(_T, _s) < 65536,
    wpop(tpath(_T, tchild(_T, _s))) == tpath(_T, town(_T, _s)), wlast(tpath(_T, tchild(_T, _s))) == tlet(_T, _s),
    L.wlen(tpath(_T, tchild(_T, _s))) == L.wlen(tpath(_T, town(_T, _s))) + 1)), patterns=[tentry(_T, _s)]))
L.axiom('wpop', ['wpop'], ForAll([_w], Implies(L.wlen(_w) > 0, L.wlen(wpop(_w)) == L.wlen(_w) - 1), patterns=[wpop(_w)]))
L.axiom('wpopat', ['wpop'], ForAll([_w, _i0], Implies(And(0 <= _i0, _i0 < L.wlen(_w) - 1), L.wat(wpop(_w), _i0) == L.wat(_w, _i0)), patterns=[L.wat(wpop(_w), _i0)]))
L.axiom('wlast', ['wlast'], ForAll([_w], Implies(L.wlen(_w) > 0, wlast(_w) == L.wat(_w, L.wlen(_w) - 1)), patterns=[wlast(_w)]))
L.axiom('under0', ['under'], ForAll([_T, _m], Implies(tnode(_T, _m), under(_T, tfind(_T, L.emptyw), _m)), patterns=[under(_T, tfind(_T, L.emptyw), _m)]))
L.axiom('under1', ['under'], ForAll([_T, _n], under(_T, _n, _n), patterns=[under(_T, _n, _n)]))
L.axiom('under2', ['under'], ForAll([_T, _n, _m], Implies(And(under(_T, _n, _m), _n != _m), And(0 <= way(_T, _n, _m), way(_T, _n, _m) < tcnt(_T, _n), under(_T, tchild(_T, tent(_T, _n, way(_T, _n, _m))), _m))), patterns=[under(_T, _n, _m)]))
L.axiom('under3', ['under'], ForAll([_T, _s, _m], Implies(And(tentry(_T, _s), under(_T, tchild(_T, _s), _m)), And(under(_T, town(_T, _s), _m), _m != town(_T, _s), way(_T, town(_T, _s), _m) == trk(_T, _s))), patterns=[under(_T, tchild(_T, _s), _m)]))


def keeps(T, U):
    """everything in T is in U, with the same letters"""
    n = fresh('tn', I)
    return ForAll([n], Implies(tnode(T, n), And(tnode(U, n), tpath(U, n) == tpath(T, n))), patterns=[tnode(T, n), tnode(U, n)])


def nodeeper(T, U, W):
    """new nodes are no deeper than the word inserted"""
    n = fresh('tn', I)
    return ForAll([n], Implies(tnode(U, n), Or(tnode(T, n), L.wlen(tpath(U, n)) <= L.wlen(W))), patterns=[tnode(U, n)])


def nodeeper1(U):
    n = fresh('tn', I)
    return ForAll([n], Implies(tnode(U, n), L.wlen(tpath(U, n)) == 0), patterns=[tnode(U, n)])


def wordsbut(T, U, r):
    """apart from node r, T and U have the same words with the same numbers"""
    n = fresh('tn', I)
    return ForAll([n], Implies(n != r, And(tword(U, n) == tword(T, n), Implies(tword(T, n), twid(U, n) == twid(T, n)))), patterns=[tword(T, n), tword(U, n), twid(U, n)])


# ---------------------------------------------------------------- the words of a store: those of its nodes, by number
ws = Function('ws', TrieV, L.zs(VO), L.zs(VW))
_x, _i, _v = Const('x', L.zs(VO)), Int('i'), Const('v', L.zs(VW))
L.axiom('ws', ['ws'], ForAll([_T, _x], L.vlen(VW, ws(_T, _x)) == L.vlen(VO, _x), patterns=[ws(_T, _x)]))
L.axiom('wsat', ['ws'], ForAll([_T, _x, _i], L.vat(VW, ws(_T, _x), _i) == tpath(_T, L.vat(VO, _x, _i)), patterns=[L.vat(VW, ws(_T, _x), _i), MultiPattern(ws(_T, _x), L.vat(VO, _x, _i))]))
# w is one of the words of v, at number wnum
known, wnum = Function('known', L.zs(VW), WordS, BoolSort()), Function('wnum', L.zs(VW), WordS, I)
L.axiom('known', ['known'], ForAll([_v, _w], Implies(known(_v, _w), And(0 <= wnum(_v, _w), wnum(_v, _w) < L.vlen(VW, _v), L.vat(VW, _v, wnum(_v, _w)) == _w)), patterns=[known(_v, _w)]))
L.axiom('known2', ['known'], ForAll([_v, _w, _i], Implies(And(0 <= _i, _i < L.vlen(VW, _v), L.vat(VW, _v, _i) == _w), known(_v, _w)), patterns=[MultiPattern(known(_v, _w), L.vat(VW, _v, _i))]))


alias('WordStore', VW)


def distinct(v):
    i, j = fresh('di', I), fresh('dj', I)
    v = L.nm(v)
    return ForAll([i, j], Implies(And(0 <= i, i < L.vlen(VW, v), 0 <= j, j < L.vlen(VW, v), L.vat(VW, v, i) == L.vat(VW, v, j)), i == j), patterns=[MultiPattern(L.vat(VW, v, i), L.vat(VW, v, j))])


def nonempty(v):
    i = fresh('di', I)
    v = L.nm(v)
    return ForAll([i], Implies(And(0 <= i, i < L.vlen(VW, v)), L.wlen(L.vat(VW, v, i)) > 0), patterns=[L.vat(VW, v, i)])


def swf(T, x):
    """the invariant of a store's private data"""
    k, m = fresh('wk', I), fresh('wm', I)
    T, x = L.nm(T), L.nm(x)
    xk = L.vat(VO, x, k)
    return [("every number has a node", ForAll([k], Implies(And(0 <= k, k < L.vlen(VO, x)), And(tword(T, xk), twid(T, xk) == k)), patterns=[xk])),
            ("every word has a number", ForAll([m], Implies(tword(T, m), And(twid(T, m) < L.vlen(VO, x), L.vat(VO, x, twid(T, m)) == m)), patterns=[tword(T, m)]))]


def lemmas_store():
    T, x = Const('lT', TrieV), Const('lx', L.zs(VO))
    return [("the words of a store are distinct", [f for n, f in swf(T, x)], distinct(ws(T, x))),
            ("no word of a store is empty", [f for n, f in swf(T, x)], nonempty(ws(T, x)))]


def install(lib):
    C = lib.contracts

    extra = lambda X, st, o: swf(at(X, st, 'Trie', o, 0), at(X, st, VO, o, 8))
    lib.reps['WordStore'] = pimpl('WordStore', [('Trie', 0), (VO, 8)], 32, lambda X, st, o: ws(at(X, st, 'Trie', o, 0), at(X, st, VO, o, 8)), extra)
    lib.reps['WordStore'].movedfrom = lambda X, st, p: BoolVal(False)
    # what the class guarantees to its users: proved from the representation as lemma-like obligations of every function
    lib.invariants['WordStore'] = lambda v: [("its words are distinct", distinct(v)), ("none is empty", nonempty(v))]

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    # ---------------------------------------------------------------- Trie
    @con('Trie::Trie()')
    def c(spec, this):
        spec.may_throw('std::runtime_error')
        spec.set('Trie', this, None)
        n = fresh('tn', I)
        spec.ensures("the new trie has no words", lambda new, ret: ForAll([n], Not(tword(new.get('Trie', this), n)), patterns=[tword(new.get('Trie', this), n)]))
        spec.ensures("it counts none", lambda new, ret: tnum(new.get('Trie', this)) == 0)
        spec.ensures("it has one node", lambda new, ret: nodeeper1(new.get('Trie', this)))

    @con('Trie::~Trie()')
    def c(spec, this):
        spec.get('Trie', this)
        spec.destroy('Trie', this)

    @con('Trie::hasWord(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(has(spec.get('Trie', this), spec.get('Word', w)))

    @con('Trie::findWord(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(tfind(spec.get('Trie', this), spec.get('Word', w)))

    @con('Trie::getWordID(unsigned int) const')
    def c(spec, this, n):
        T = spec.get('Trie', this)
        spec.requires("the node exists", tnode(T, n.u))
        spec.returns(If(tword(T, n.u), twid(T, n.u), IntVal(INVALID)))

    @con('Trie::getWord(unsigned int) const')
    def c(spec, out, this, n):
        T = spec.get('Trie', this)
        spec.requires("the node exists", tnode(T, n.u))
        spec.init('Word', out, tpath(T, n.u))

    @con('Trie::insertWord(Columbus::Word const&, unsigned int)')
    def c(spec, this, w, i):
        T, W = spec.get('Trie', this), spec.get('Word', w)
        spec.requires("the number is valid", i.u != INVALID)
        spec.requires("a word keeps its number", Implies(has(T, W), twid(T, tfind(T, W)) == i.u))
        spec.throws('std::out_of_range', L.wlen(W) == 0)
        f = spec.may_throw('std::runtime_error', L.wlen(W) > 0)
        f.set('Trie', this, None)
        U = lambda new: new.get('Trie', this)
        f.ensures("the nodes stay", lambda new, ret: keeps(T, U(new)))
        f.ensures("the words stay", lambda new, ret: And(tnum(U(new)) == tnum(T), wordsbut(T, U(new), IntVal(-1))))
        f.ensures("new nodes are not deeper than the word", lambda new, ret: nodeeper(T, U(new), W))
        spec.normcond = L.wlen(W) > 0
        spec.set('Trie', this, None)
        spec.ensures("the nodes stay", lambda new, ret: keeps(T, U(new)))
        spec.ensures("new nodes are not deeper than the word", lambda new, ret: nodeeper(T, U(new), W))
        spec.ensures("it counts one more if it is new", lambda new, ret: tnum(U(new)) == tnum(T) + If(has(T, W), 0, 1))
        spec.ensures("other words stay", lambda new, ret: wordsbut(T, U(new), ret.u))
        spec.ensures("the word has its node", lambda new, ret: And(tfind(U(new), W) == ret.u, ret.u != 0))
        spec.ensures("the word has its number", lambda new, ret: And(tword(U(new), ret.u), twid(U(new), ret.u) == i.u))

    @con('Trie::getRoot() const')
    def c(spec, this):
        spec.returns(troot(spec.get('Trie', this)))

    @con('Trie::getSiblingList(unsigned int) const')
    def c(spec, this, n):
        T = spec.get('Trie', this)
        spec.requires("the node exists", tnode(T, n.u))
        spec.returns(If(tcnt(T, n.u) > 0, tent(T, n.u, 0), IntVal(0)))

    @con('Trie::getNextSibling(unsigned int) const')
    def c(spec, this, s):
        T = spec.get('Trie', this)
        spec.requires("the entry exists", tentry(T, s.u))
        k = trk(T, s.u) + 1
        spec.returns(If(k < tcnt(T, town(T, s.u)), tent(T, town(T, s.u), k), IntVal(0)))

    for nm, f in (('getLetter', tlet), ('getChild', tchild)):
        @con('Trie::%s(unsigned int) const' % nm)
        def c(spec, this, s, f=f):
            T = spec.get('Trie', this)
            spec.requires("the entry exists", tentry(T, s.u))
            spec.returns(f(T, s.u))

    @con('Trie::numWords() const')
    def c(spec, this):
        spec.returns(tnum(spec.get('Trie', this)))

    @con('Trie::numNodes() const')
    def c(spec, this):
        spec.returns(tnodes(spec.get('Trie', this)))

    # ---------------------------------------------------------------- WordStore
    @con('WordStore::WordStore()')
    def c(spec, this):
        spec.may_throw('std::runtime_error')
        spec.set('WordStore', this, L.vempty(VW))

    @con('WordStore::~WordStore()')
    def c(spec, this):
        spec.get('WordStore', this)
        spec.destroy('WordStore', this)

    @con('WordStore::getID(Columbus::Word const&)')
    def c(spec, this, w):
        v, W = spec.get('WordStore', this), spec.get('Word', w)
        spec.st.assume(L.vlen(VW, v) < INVALID)     # fewer words than there are numbers
        k = known(v, W)
        if spec.mode == 'call':
            for f in (k, Not(k)):       # (only to keep terms small)
                if spec.X.quick(spec.st, f):
                    k = BoolVal(f is k)
                    break
        spec.throws('std::out_of_range', L.wlen(W) == 0)
        spec.may_throw('std::runtime_error', And(L.wlen(W) > 0, Not(k)))
        spec.normcond = L.wlen(W) > 0
        if is_true(k):
            spec.get('WordStore', this)
        else:
            spec.set('WordStore', this, If(k, v, L.vpush(VW, v, W)))
        spec.returns(If(k, wnum(v, W), L.vlen(VW, v)))

    @con('WordStore::hasWord(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(known(spec.get('WordStore', this), spec.get('Word', w)))

    @con('WordStore::getWord(unsigned int) const')
    def c(spec, out, this, i):
        v = spec.get('WordStore', this)
        spec.throws('std::out_of_range', i.u >= L.vlen(VW, v))
        spec.init('Word', out, L.vat(VW, v, i.u))

    @con('WordStore::hasWord(unsigned int) const')
    def c(spec, this, i):
        spec.returns(i.u < L.vlen(VW, spec.get('WordStore', this)))
