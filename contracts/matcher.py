"""The Matcher over its private data (C13-C15, C17, C20): reverse index, collection of matches, scores, filter, online matching."""
from z3 import *
import cxx
import logic as L
import vc
import errors, store, leven, results, lists, search, capi
from vc import *
from logic import fresh, I, WordS
from lists import N, VW, at
from results import PR, VR, VM, MD, VF, VW2, WW, MWD, SP, rel, doc, rlen, rat, ranking, radd, rcat, inr
from store import known, wnum

KEY = ('rec', ((0, 'i32'), (4, 'i32')))             # field, word
SD = ('set', 'i64')
RI = ('map', KEY, SD)                               # ReverseIndex, at offset 0
IX = ('map', 'i32', 'ptr')
SZ = ('map', ('rec', ((0, 'i64'), (8, 'i32'))), 'i64')
VD = ('vec', 'i64')
OFF = dict(ix=(IX, 0), ri=(RI, 88), e=('ErrorValues', 176), wt=('IndexWeights', 216), st=('MatcherStatistics', 224), ws=('WordStore', 232), sz=(SZ, 240))
SIZE = 288
rik = lambda f, w: L.rmk(KEY, [f, w])
ZD = L.zs(SD)
inri = lambda R, f, w, d: And(L.mhas(RI, R, rik(f, w)), L.mhas(SD, L.mget(RI, R, rik(f, w)), d))


cxx.RECORDS['Columbus::DocCount'] = DC = ('rec', ((0, 'i64'), (8, 'i64')))
VDC = ('vec', DC)


class Data:
    """the values of a matcher's private data at p"""

    def __init__(self, X, st, p):
        self.p = p
        for n, (s, o) in OFF.items():
            setattr(self, n, X.toz(s, X.load(st, s, self.at(n), False)))

    def at(self, n):
        return PB(self.p.obj, zadd(self.p.off, OFF[n][1]))


# ---------------------------------------------------------------- how often a record is among the first n of some results
ZR, ZP = L.zs(VR), L.zs(PR)
rcel = Function('rcel', L.vel(VR, Const('v', ZR)).sort(), I, ZP, I)
rcnt = lambda v, x: rcel(L.vel(VR, v), rlen(v), x)
_A, _i, _j, _y, _x = Const('A', L.vel(VR, Const('v', ZR)).sort(), ), Int('i'), Int('j'), Const('y', ZP), Const('x', ZP)
_v, _w = Const('v', ZR), Const('w', ZR)
L.axiom('rcel0', ['rcel'], ForAll([_A, _i, _x], And(rcel(_A, _i, _x) >= 0, Implies(_i <= 0, rcel(_A, _i, _x) == 0)), patterns=[rcel(_A, _i, _x)]))
L.axiom('rcel', ['rcel'], ForAll([_A, _i, _x], Implies(_i >= 0, rcel(_A, _i + 1, _x) == rcel(_A, _i, _x) + If(Select(_A, _i) == _x, 1, 0)), patterns=[rcel(_A, _i + 1, _x)]))
L.axiom('rcelstep', ['rcel'], ForAll([_A, _i, _x], Implies(_i >= 0, rcel(_A, _i + 1, _x) == rcel(_A, _i, _x) + If(Select(_A, _i) == _x, 1, 0)), patterns=[MultiPattern(rcel(_A, _i, _x), Select(_A, _i))]))
# a permutation keeps the counts; ranking(push(v, x)) and radd(ranking(v), x) are permutations of v and x
L.axiom('rcntranking', ['rcel', 'ranking'], ForAll([_v, _x], rcnt(ranking(_v), _x) == rcnt(_v, _x), patterns=[rcnt(ranking(_v), _x)]))
L.axiom('rcntradd', ['rcel', 'radd'], ForAll([_v, _y, _x], rcnt(radd(_v, _y), _x) == rcnt(_v, _x) + If(_y == _x, 1, 0), patterns=[rcnt(radd(_v, _y), _x)]))
L.axiom('rcntrcat', ['rcel', 'rcat'], ForAll([_v, _w, _x], rcnt(rcat(_v, _w), _x) == rcnt(_v, _x) + rcnt(_w, _x), patterns=[rcnt(rcat(_v, _w), _x)]))


# where a record is that is counted; that what is there is counted; that what is there twice is counted twice (by induction on n from lemmas 'counts')
rpos, twice = Function('rpos', _A.sort(), I, ZP, I), Function('twice', _A.sort(), I, I, I, BoolSort())
_rp = rpos(_A, _i, _x)
L.axiom('rpos', ['rpos'], ForAll([_A, _i, _x], Or(rcel(_A, _i, _x) == 0, And(0 <= _rp, _rp < _i, Select(_A, _rp) == _x)), patterns=[_rp]))
_i2 = Int('i2')
L.axiom('twice', ['twice'], ForAll([_A, _i, _i2, _j], And(twice(_A, _i, _i2, _j), Implies(And(0 <= _i, _i < _j), rcel(_A, _j, Select(_A, _i)) >= 1),
    Implies(And(0 <= _i, _i < _j, 0 <= _i2, _i2 < _j, _i != _i2, Select(_A, _i) == Select(_A, _i2)), rcel(_A, _j, Select(_A, _i)) >= 2)), patterns=[twice(_A, _i, _i2, _j)]))


def lemmas_counts():
    A, x = Const('rA', _A.sort()), Const('rx', ZP)
    n, p, q, c = Ints('rn rp rq rc')
    at_ = lambda k: Select(A, k)
    c1 = c + If(at_(n) == x, 1, 0)      # c: the count at n; at n + 1 it is c1
    below = lambda m, k: And(0 <= k, k < m)
    ok, keep = Bools('fok fkeep')
    k, ns, nt = Ints('fk fns fnt')
    return [("filter: an alternative without conditions", [Or(ok, And(0 <= k, k < ns)), Implies(And(ok, 0 <= 0, 0 < nt), keep), nt > 0, ns <= 0], keep),
            ("counts: what is counted is there", [n >= 0, c >= 0, Or(c == 0, And(below(n, p), at_(p) == x))], Or(c1 == 0, And(below(n + 1, p), at_(p) == x), at_(n) == x)),
            ("counts: what is there is counted", [n >= 0, c >= 0, Implies(And(below(n, p), at_(p) == x), c >= 1), below(n + 1, p), at_(p) == x], c1 >= 1),
            ("counts: what is there twice is counted twice", [n >= 0, c >= 0, Implies(And(below(n, p), at_(p) == x), c >= 1), Implies(And(below(n, q), at_(q) == x), c >= 1),
                Implies(And(below(n, p), below(n, q), p != q, at_(p) == x, at_(q) == x), c >= 2), below(n + 1, p), below(n + 1, q), p != q, at_(p) == x, at_(q) == x], c1 >= 2)]


# ---------------------------------------------------------------- the filter
def holds(D, F, t, s, d):
    """condition s of alternative t of filter F holds of document d"""
    c = L.vat(VW2, L.vat(VF, F, t), s)
    f, w = L.rget(WW, c, 0), L.rget(WW, c, 16)
    return And(known(D.ws, f), known(D.ws, w), inri(D.ri, wnum(D.ws, f), wnum(D.ws, w), d))


ZW, ZRI, ZF = L.zs(VW), L.zs(RI), L.zs(VF)
# altok: every condition of alternative t holds (altbad: one that does not); kept: some alternative's do (altgood: which)
altok, altbad = Function('altok', ZW, ZRI, ZF, I, I, BoolSort()), Function('altbad', ZW, ZRI, ZF, I, I, I)
kept, altgood = Function('kept', ZW, ZRI, ZF, I, BoolSort()), Function('altgood', ZW, ZRI, ZF, I, I)


class _D:
    pass


_d0 = _D()
_d0.ws, _d0.ri = Const('W', ZW), Const('R', ZRI)
_F, _t, _s, _d = Const('F', ZF), Int('t'), Int('s'), Int('d')
_ao = altok(_d0.ws, _d0.ri, _F, _t, _d)
_ab = altbad(_d0.ws, _d0.ri, _F, _t, _d)
nsub = lambda F, t: L.vlen(VW2, L.vat(VF, F, t))
L.axiom('altok', ['altok'], ForAll([_d0.ws, _d0.ri, _F, _t, _d], Or(_ao, And(0 <= _ab, _ab < nsub(_F, _t), Not(holds(_d0, _F, _t, _ab, _d)))), patterns=[_ao]))
L.axiom('altok2', ['altok'], ForAll([_d0.ws, _d0.ri, _F, _t, _d, _s], Implies(And(_ao, 0 <= _s, _s < nsub(_F, _t)), holds(_d0, _F, _t, _s, _d)),
                                    patterns=[MultiPattern(_ao, L.vat(VW2, L.vat(VF, _F, _t), _s))]))
_kp, _ag = kept(_d0.ws, _d0.ri, _F, _d), altgood(_d0.ws, _d0.ri, _F, _d)
L.axiom('kept', ['kept'], ForAll([_d0.ws, _d0.ri, _F, _d], Implies(_kp, And(0 <= _ag, _ag < L.vlen(VF, _F), altok(_d0.ws, _d0.ri, _F, _ag, _d))), patterns=[_kp]))
L.axiom('kept2', ['kept', 'altok'], ForAll([_d0.ws, _d0.ri, _F, _t, _d], Implies(And(_ao, 0 <= _t, _t < L.vlen(VF, _F)), _kp), patterns=[MultiPattern(_ao, _kp)]))
# (lemma 'filter: an alternative without conditions')
L.axiom('kept0', ['kept'], ForAll([_d0.ws, _d0.ri, _F, _d], Or(_kp, L.vlen(VF, _F) <= 0, nsub(_F, IntVal(0)) > 0), patterns=[_kp]))

# ---------------------------------------------------------------- collected matches: field -> word -> smallest error
MEM = ('map', 'i32', 'i32')
BM = ('map', 'i32', MEM)
ZB = L.zs(BM)
NOERR = search.NOERR
mnn = lambda a, b: If(a <= b, a, b)
inb = lambda B, f, w: And(L.mhas(BM, B, f), L.mhas(MEM, L.mget(BM, B, f), w))
bget = lambda B, f, w: L.mget(MEM, L.mget(BM, B, f), w)
bval = Function('bval', ZB, I, I, I)
_B, _f, _w1 = Const('B', ZB), Int('f'), Int('w')
L.axiom('bval', ['bval'], ForAll([_B, _f, _w1], bval(_B, _f, _w1) == If(inb(_B, _f, _w1), bget(_B, _f, _w1), IntVal(NOERR)), patterns=[bval(_B, _f, _w1)]))


def allb(B, f):
    """f(B, field, word) for all"""
    x, y = fresh('bf', I), fresh('bw', I)
    B = L.nm(B)
    return ForAll([x, y], f(B, x, y), patterns=[bval(B, x, y), L.mhas(MEM, L.mget(BM, B, x), y)])


def goodb(B):
    """errors are not negative; the inner maps are finite"""
    f = fresh('bf', I)
    B = L.nm(B)
    return And(allb(B, lambda B, x, y: Implies(inb(B, x, y), And(0 <= bget(B, x, y), bget(B, x, y) < NOERR))),
               ForAll([f], Implies(L.mhas(BM, B, f), L.fin('i32')(L.mdom(MEM, L.mget(BM, B, f)))), patterns=[L.mget(BM, B, f)]))


# ---------------------------------------------------------------- the state a search depends on
LI = leven.LI
MLI = ArraySort(I, ArraySort(I, L.zs(LI)))
SS = Datatype('SearchState')
SS.declare('sstate', ('s_e', L.zs('ErrorValues')), ('s_m', MLI), ('s_ix', L.zs(IX)), ('s_ri', L.zs(RI)), ('s_wt', L.zs('IndexWeights')), ('s_ws', ZW),
           ('s_q', ZW), ('s_dyn', I), ('s_ns', L.zs(results.SW)), ('s_xe', I))
SS = SS.create()
_S = Const('S', SS)
lvm = lambda m, ix, f: Select(Select(m, L.PtrDT.po(L.mget(IX, ix, f))), L.PtrDT.pf(L.mget(IX, ix, f)))
index = lambda S, f: lvm(SS.s_m(S), SS.s_ix(S), f)


def limit(S, i):
    n = L.wlen(L.vat(VW, SS.s_q(S), i))
    return If(And(SS.s_dyn(S) != 0, n < 2), IntVal(100), IntVal(200)) + SS.s_xe(S)


searched = lambda S, f: And(L.mhas(IX, SS.s_ix(S), f), Not(Select(SS.s_ns(S), L.vat(VW, SS.s_ws(S), f))))


def closest(S, i, f, w):
    """the error of the word numbered w to query word i in field f, when it is within the limit"""
    T = leven.trie(index(S, f))
    q = L.vat(VW, SS.s_q(S), i)
    return If(And(searched(S, f), search.hitw(T, SS.s_e(S), q, limit(S, i), w)), search.err(SS.s_e(S), q, store.tpath(T, store.tnd(T, w))), IntVal(NOERR))


best = Function('best', SS, I, I, I, I)         # the smallest to the first i query words
L.axiom('best0', ['best'], ForAll([_S, _i, _f, _w1], And(best(_S, _i, _f, _w1) <= NOERR, Implies(_i <= 0, best(_S, _i, _f, _w1) == NOERR)), patterns=[best(_S, _i, _f, _w1)]))
nxt = Function('nxt', SS, I, I, I, I)           # to the first i + 1
_nx = nxt(_S, _i, _f, _w1)
L.axiom('best', ['nxt'], ForAll([_S, _i, _f, _w1], Implies(_i >= 0, And(_nx == mnn(best(_S, _i, _f, _w1), closest(_S, _i, _f, _w1)), best(_S, _i + 1, _f, _w1) == _nx)), patterns=[_nx]))


def state(spec, D, q=None, P=None, xe=None):
    if q is None:       # what does not depend on the query
        D.E = spec.get('ErrorValues', D.at('e'))
        return SS.sstate(D.E, spec.X.memarr(spec.st, 'LevenshteinIndex'), D.ix, D.ri, D.wt, D.ws, Const('noquery', ZW), IntVal(0), Const('nofields', L.zs(results.SW)), IntVal(0))
    return SS.sstate(D.E, spec.X.memarr(spec.st, 'LevenshteinIndex'), D.ix, D.ri, D.wt, D.ws, q, L.rget(SP, P, 0), L.rget(SP, P, 16), xe)


def present(S, B):
    """the words of B are words of the indexes"""
    return allb(B, lambda B, x, y: Implies(inb(B, x, y), And(L.mhas(IX, SS.s_ix(S), x), L.mhas(leven.MS, leven.counts(index(S, x)), y))))


# ---------------------------------------------------------------- relevancies: document -> sum of scores
MDR = ('map', 'i64', 'f64')
score = Function('score', SS, I, I, I, RealSort())


def relevancy(S, f, w, e):
    v = index(S, f)
    weight = results.weight(SS.s_wt(S), L.vat(VW, SS.s_ws(S), f))
    return 100 / (100 + ToReal(e)) * (1 - ToReal(leven.cnt(v, w)) / (ToReal(leven.maxc(v)) + 1)) * weight


# (score is relevancy, by definition: its meaning is needed only where calculateRelevancy is proved to return it)
ZMD = L.zs(MDR)
dhas, dsum = Function('dhas', ZMD, I, BoolSort()), Function('dsum', ZMD, I, RealSort())
_M = Const('M', ZMD)
L.axiom('dhas', ['dhas'], ForAll([_M, _d], dhas(_M, _d) == L.mhas(MDR, _M, _d), patterns=[dhas(_M, _d)]))
L.axiom('dsum', ['dsum'], ForAll([_M, _d], dsum(_M, _d) == If(L.mhas(MDR, _M, _d), L.mget(MDR, _M, _d), RealVal(0)), patterns=[dsum(_M, _d)]))


def alld(M, f, trig=lambda d: []):
    d = fresh('gd', I)
    M = L.nm(M)
    return ForAll([d], f(M, d), patterns=[dhas(M, d), dsum(M, d), L.mhas(MDR, M, d)] + [t for t in trig(d) if not L.badpat(t)])


# whether d has one of the first s words of m in field f, and the sum of their scores; ..n: of the first s + 1
ZE2 = L.zs(MEM)
ghi, ghin = Function('ghi', SS, ZE2, I, I, I, BoolSort()), Function('ghin', SS, ZE2, I, I, I, BoolSort())
gsi, gsin = Function('gsi', SS, ZE2, I, I, I, RealSort()), Function('gsin', SS, ZE2, I, I, I, RealSort())
# the same over the first r fields of B
gho, gso = Function('gho', SS, ZB, I, I, BoolSort()), Function('gso', SS, ZB, I, I, RealSort())
ghon, gson = Function('ghon', SS, ZB, I, I, BoolSort()), Function('gson', SS, ZB, I, I, RealSort())
_m, _k = Const('m', ZE2), Int('k')
_wk = L.enum(MEM, _m, _k)
_in = inri(SS.s_ri(_S), _f, _wk, _d)
_args = [_S, _m, _f, _k, _d]
L.axiom('gi0', ['ghi', 'gsi'], ForAll(_args, Implies(_k <= 0, And(Not(ghi(*_args)), gsi(*_args) == 0)), patterns=[ghi(*_args), gsi(*_args)]))
L.axiom('gin', ['ghin'], ForAll(_args, Implies(_k >= 0, And(
    ghin(*_args) == Or(ghi(*_args), _in), gsin(*_args) == gsi(*_args) + If(_in, score(_S, _f, _wk, L.mget(MEM, _m, _wk)), RealVal(0)),
    ghi(_S, _m, _f, _k + 1, _d) == ghin(*_args), gsi(_S, _m, _f, _k + 1, _d) == gsin(*_args))), patterns=[ghin(*_args)]))
_fk = L.enum(BM, _B, _k)
_mk = L.mget(BM, _B, _fk)
_ar2 = [_S, _B, _k, _d]
L.axiom('go0', ['gho', 'gso'], ForAll(_ar2, Implies(_k <= 0, And(Not(gho(*_ar2)), gso(*_ar2) == 0)), patterns=[gho(*_ar2), gso(*_ar2)]))
_ci = [_S, _mk, _fk, L.card(MEM, _mk), _d]
L.axiom('gon', ['ghon'], ForAll(_ar2, Implies(_k >= 0, And(
    ghon(*_ar2) == Or(gho(*_ar2), ghi(*_ci)), gson(*_ar2) == gso(*_ar2) + gsi(*_ci),
    gho(_S, _B, _k + 1, _d) == ghon(*_ar2), gso(_S, _B, _k + 1, _d) == gson(*_ar2))), patterns=[ghon(*_ar2)]))


# how many of the first i words of q document d has in field number f; exn: of the first i + 1
exacts, exn = Function('exacts', ZW, ZRI, I, ZW, I, I, I), Function('exn', ZW, ZRI, I, ZW, I, I, I)
_Q = Const('Q', ZW)
_ea = [_d0.ws, _d0.ri, _f, _Q, _i, _d]
_qw = L.vat(VW, _Q, _i)
exact = lambda W, R, f, w, d: And(L.wlen(w) > 0, known(W, w), inri(R, f, wnum(W, w), d))
L.axiom('exacts0', ['exacts'], ForAll(_ea, And(exacts(*_ea) >= 0, Implies(_i >= 0, exacts(*_ea) <= _i), Implies(_i <= 0, exacts(*_ea) == 0)), patterns=[exacts(*_ea)]))
L.axiom('exn', ['exn'], ForAll(_ea, Implies(_i >= 0, And(exn(*_ea) == exacts(*_ea) + If(exact(_d0.ws, _d0.ri, _f, _qw, _d), 1, 0),
                                                        exacts(_d0.ws, _d0.ri, _f, _Q, _i + 1, _d) == exn(*_ea))), patterns=[exn(*_ea)]))

# what a search finds: the documents that have a word within the limit of some query word, each with the sum of its words' scores.
# These are the values over any map B of the smallest errors (the sum over a finite set does not depend on how it is enumerated);
# cf, cw: where B is not that map
isfound, total = Function('isfound', SS, I, BoolSort()), Function('total', SS, I, RealSort())
cf, cw = Function('cf', SS, ZB, I), Function('cw', SS, ZB, I)
noq = lambda S: SS.sstate(SS.s_e(S), SS.s_m(S), SS.s_ix(S), SS.s_ri(S), SS.s_wt(S), SS.s_ws(S), Const('noquery', ZW), IntVal(0), Const('nofields', L.zs(results.SW)), IntVal(0))
_S0, _d2 = Const('S0', SS), Int('d2')
for _g, _t2 in ((gho, isfound), (gso, total)):
    _gt = _g(_S0, _B, _k, _d)
    L.axiom('found', ['isfound', _g.name()], ForAll([_S, _S0, _B, _k, _d, _d2], Or(
        bval(_B, cf(_S, _B), cw(_S, _B)) != best(_S, L.vlen(VW, SS.s_q(_S)), cf(_S, _B), cw(_S, _B)), _S0 != noq(_S), _k != L.card(BM, _B), _gt == _t2(_S, _d)), patterns=[MultiPattern(_gt, isfound(_S, _d2))]))


def memory(X, st, p):
    return [("its data is memory of its own", And(p.obj != 0, Select(st.g['alive'], p.obj), p.off == 0, L.akind(p.obj) == 1, L.okind(p.obj) == 0, L.osize(p.obj) >= SIZE))]


def indexes(X, st, D):
    """every field has an index of its own, whose words have the numbers the store gives them"""
    f, n, g = fresh('ixf', I), fresh('ixn', I), fresh('ixg', I)
    has = L.mhas(IX, D.ix, f)
    p = L.mget(IX, D.ix, f)
    o = L.PtrDT.po(p)
    T = leven.trie(lvm(X.memarr(st, 'LevenshteinIndex'), D.ix, f))
    return [("every index is memory of its own", ForAll([f], Implies(has, And(o > 0, o < st.g['next'], Select(st.g['alive'], o), L.PtrDT.pf(p) == 0, L.akind(o) == 1, L.okind(o) == 0, L.osize(o) >= 8)), patterns=[p])),
            ("fields are known words", ForAll([f], Implies(has, And(0 <= f, f < L.vlen(VW, D.ws))), patterns=[has])),
            ("the words of an index have the store's numbers", ForAll([f, n], Implies(And(has, store.tword(T, n)), And(store.twid(T, n) < L.vlen(VW, D.ws), L.vat(VW, D.ws, store.twid(T, n)) == store.tpath(T, n))), patterns=[store.tword(T, n)])),
            ]


def minv(spec, p, D):
    """what a matcher's private data keeps to"""
    X, st = spec.X, spec.st
    for n, f in memory(X, st, p) + indexes(X, st, D):
        spec.requires(n, f)


def data(spec, p):
    D = Data(spec.X, spec.st, p)
    spec.get('WordStore', D.at('ws'))
    k = fresh('rk', L.zs(KEY))
    spec.st.assume(ForAll([k], L.fin('i64')(L.mget(RI, D.ri, k)), patterns=[L.mget(RI, D.ri, k)]))     # containers are finite
    minv(spec, p, D)
    if spec.mode == 'def':
        spec.ghost['data'] = D
    return D


def install(lib):
    C = lib.contracts

    def con(*names):
        def d(f):
            def g(spec, *a):
                if spec.mode == 'def':
                    spec.hints += [lists.iter_range, hints, lists.count_hints]
                f(spec, *a)
            for n in names:
                C[N + n] = g
            return f
        return d

    # ---------------------------------------------------------------- ReverseIndex
    def rget(spec, this):
        if spec.mode == 'def':
            spec.requires("it exists", And(this.obj != 0, Select(spec.st.g['alive'], this.obj), this.off >= 0, this.off + 88 <= L.osize(this.obj)))
        return spec.X.toz(RI, spec.X.load(spec.st, RI, this, False))

    @con('ReverseIndex::add(unsigned int, unsigned int, unsigned long)')
    def c(spec, this, w, f, d):
        R = rget(spec, this)
        k = rik(f.u, w.u)
        old = If(L.mhas(RI, R, k), L.mget(RI, R, k), L.mempty(SD))
        spec.set(RI, this, L.mput(RI, R, k, Store(old, d.u, True)))

    @con('ReverseIndex::documentHasTerm(unsigned int, unsigned int, unsigned long)')
    def c(spec, this, w, f, d):
        spec.returns(inri(rget(spec, this), f.u, w.u, d.u))

    @con('ReverseIndex::findDocuments(unsigned int, unsigned int, std::vector<unsigned long, std::allocator<unsigned long>>&)')
    def c(spec, this, w, f, out):
        R = rget(spec, this)
        v = spec.X.toz(VD, spec.X.load(spec.st, VD, out, False))
        k = rik(f.u, w.u)
        spec.set(VD, out, docs(v, L.mget(RI, R, k), L.mhas(RI, R, k)))
        if spec.mode == 'def':
            spec.ghost['itlists'] = [lambda S, r: L.eqv(VD, S.load(VD, out), docsup(v, L.mget(RI, R, k), r))]

    # ---------------------------------------------------------------- collecting matches
    MAPS = 'std::map<unsigned int, std::map<unsigned int, int, std::less<unsigned int>, std::allocator<std::pair<unsigned int const, int>>>, std::less<unsigned int>, std::allocator<std::pair<unsigned int const, std::map<unsigned int, int, std::less<unsigned int>, std::allocator<std::pair<unsigned int const, int>>>>>>&'
    cont = lambda spec, s, p: spec.X.toz(s, spec.X.load(spec.st, s, p, False))

    @con('addMatches(Columbus::MatcherPrivate*, %s, Columbus::Word const&, unsigned int, Columbus::IndexMatches&)' % MAPS)
    def c(spec, p, bp, w, f, matches):
        B, v = cont(spec, BM, bp), spec.get('IndexMatches', matches)
        k = fresh('ak', I)
        spec.requires("errors so far are not negative", goodb(B))
        spec.requires("errors are not negative", ForAll([k], Implies(And(0 <= k, k < L.vlen(VM, v)), And(0 <= search.wer(L.vat(VM, v, k)), search.wer(L.vat(VM, v, k)) < NOERR)), patterns=[L.vat(VM, v, k)]))
        spec.set(BM, bp, None)
        fu = f.u
        upto = lambda B2, m: allb(B2, lambda B2, x, y: bval(B2, x, y) == If(x == fu, mnn(bval(B, x, y), m(y)), bval(B, x, y)))
        G = lambda new: new.get(BM, bp)
        spec.ensures("errors are not negative", lambda new, ret: goodb(G(new)))
        spec.ensures("the field's smallest errors", lambda new, ret: upto(G(new), lambda y: search.mbv(v, y)))
        if spec.mode == 'def':
            cur = lambda S: S.load(BM, bp)
            spec.ghost['loops'] = lambda lc: [("errors are not negative", lambda S: goodb(cur(S))), ("the field has its map", lambda S: L.mhas(BM, cur(S), fu))] + [
                ("matches before %s taken" % n, lambda S, n=n: upto(cur(S), lambda y: search.mb(L.vel(VM, v), num(S.v(n)), y))) for n in lc.ints(64)]

    @con('matchIndexes(Columbus::MatcherPrivate*, Columbus::WordList const&, Columbus::SearchParameters const&, int, %s)' % MAPS)
    def c(spec, p, query, params, xe, bp):
        D = data(spec, p)
        q, P = spec.get('WordList', query), spec.get('SearchParameters', params)
        D.E = spec.get('ErrorValues', D.at('e'))
        B = cont(spec, BM, bp)
        S = state(spec, D, q, P, xe.s)
        spec.requires("the limit is representable", And(-2**30 <= xe.s, xe.s < 2**30))
        spec.requires("costs are not negative", search.goodcosts(D.E))
        spec.requires("errors so far are not negative", goodb(B))
        spec.requires("matches so far are words of the indexes", present(S, B))
        spec.set(BM, bp, None)
        spec.set('WordStore', D.at('ws'), D.ws)
        upto = lambda B2, m: allb(B2, lambda B2, x, y: bval(B2, x, y) == mnn(bval(B, x, y), m(x, y)))
        G = lambda new: new.get(BM, bp)
        nq = L.vlen(VW, q)
        spec.ensures("errors are not negative", lambda new, ret: goodb(G(new)))
        spec.ensures("matches are words of the indexes", lambda new, ret: present(S, G(new)))
        spec.ensures("the smallest error to any query word", lambda new, ret: upto(G(new), lambda x, y: best(S, nq, x, y)))
        if spec.mode == 'def':
            cur = lambda s: s.load(BM, bp)
            ixn = lambda x, r: And(L.mhas(IX, D.ix, x), L.rank(IX, D.ix, x) < r)
            spec.ghost['loops'] = lambda lc: [("errors are not negative", lambda s: goodb(cur(s))), ("matches are words of the indexes", lambda s: present(S, cur(s)))] + [
                ("query words before %s" % n, lambda s, n=n: upto(cur(s), lambda x, y: best(S, num(s.v(n)), x, y))) for n in lc.ints(64)] + [
                ("query words before %s and fields before %s" % (n, r[0]), lambda s, i=i, r=r: And(upto(cur(s), lambda x, y: If(ixn(x, r[1](s)), nxt(S, num(i), x, y), best(S, num(i), x, y))), allb(cur(s), lambda B2, x, y: nxt(S, num(i), x, y) <= NOERR)))
                for n, i in lc.outer(64) for r in lists.iters(lc)]

    # ---------------------------------------------------------------- relevancies
    @con('calculateRelevancy(Columbus::MatcherPrivate*, unsigned int, unsigned int, int)')
    def c(spec, p, w, f, e):
        D = data(spec, p)
        S = state(spec, D)
        ind = index(S, f.u)
        spec.requires("the field has an index", L.mhas(IX, D.ix, f.u))
        spec.requires("its index has the word", L.mhas(leven.MS, leven.counts(ind), w.u))
        spec.requires("the error is not negative", And(0 <= e.s, e.s < NOERR))
        spec.st.assume(leven.maxc(ind) < 2**62)
        spec.set('WordStore', D.at('ws'), D.ws)
        if spec.mode == 'def':
            spec.returns(relevancy(S, f.u, w.u, e.s))
        else:
            spec.returns(score(S, f.u, w.u, e.s))

    @con('gatherMatchedDocuments(Columbus::MatcherPrivate*, %s, std::map<unsigned long, double, std::less<unsigned long>, std::allocator<std::pair<unsigned long const, double>>>&)' % MAPS)
    def c(spec, p, bp, dp):
        D = data(spec, p)
        S = state(spec, D)
        B, M = cont(spec, BM, bp), cont(spec, MDR, dp)
        spec.requires("errors are not negative", goodb(B))
        spec.requires("matches are words of the indexes", present(S, B))
        if spec.mode == 'def':      # (a name of its own: a sum that equals the one before keeps its terms)
            M1 = M
            M = fresh('docs0', L.zs(MDR))
            spec.st.assume(M == M1)
        spec.set(MDR, dp, None)
        spec.set('WordStore', D.at('ws'), D.ws)
        G = lambda new: new.get(MDR, dp)
        upto = lambda M2, h, v, t: alld(M2, lambda M2, d: And(dhas(M2, d) == Or(dhas(M, d), h(d)), dsum(M2, d) == dsum(M, d) + v(d)), t)
        n = L.card(BM, B)
        spec.ensures("the documents of all matches", lambda new, ret: alld(G(new), lambda M2, d: dhas(M2, d) == Or(dhas(M, d), gho(S, B, n, d))))
        spec.ensures("the sums of their scores", lambda new, ret: alld(G(new), lambda M2, d: dsum(M2, d) == dsum(M, d) + gso(S, B, n, d)))
        if spec.mode == 'def':
            cur = lambda s: s.load(MDR, dp)

            def its(s, cs):
                return [(v.cont, v.rank) for (i, o), (srt, v) in sorted(s.st.cells.items(), key=lambda x: str(x[0])) if isinstance(v, IT) and v.cs == cs]

            all_ = lambda s, m, f: (S, m(s), f(s), L.card(MEM, m(s)))

            def loops(lc):
                out = []
                for r in range(len(its(lc, BM))):
                    R = lambda s, r=r: its(s, BM)[r][1]
                    f = lambda s, R=R: L.enum(BM, B, R(s))
                    m = lambda s, f=f: L.mget(BM, B, f(s))
                    out.append(("fields before iterator %d" % r, lambda s, R=R: upto(cur(s), lambda d: gho(S, B, R(s), d), lambda d: gso(S, B, R(s), d), lambda d: [gho(S, B, R(s), d), gso(S, B, R(s), d)])))
                    for q in range(len(its(lc, MEM))):
                        Q = lambda s, q=q: its(s, MEM)[q][1]
                        w = lambda s, m=m, Q=Q: L.enum(MEM, m(s), Q(s))
                        P = lambda s, R=R, f=f, m=m, Q=Q: (S, m(s), f(s), Q(s))
                        O = lambda s, R=R: (S, B, R(s))
                        def mid(s, O=O, P=P, m=m, f=f, w=w):
                            return And(upto(cur(s), lambda d: Or(gho(*O(s), d), ghi(*P(s), d)), lambda d: gso(*O(s), d) + gsi(*P(s), d), lambda d: [gho(*O(s), d), gso(*O(s), d)]),
                                       alld(cur(s), lambda M2, d: And(ghon(*O(s), d) == Or(gho(*O(s), d), ghi(*all_(s, m, f), d)), ghin(*P(s), d) == Or(ghi(*P(s), d), inri(D.ri, f(s), w(s), d))), lambda d: [gho(*O(s), d), gso(*O(s), d)]))
                        out.append(("fields before iterator %d, words before iterator %d" % (r, q), mid))
                        for n in lc.ints(64):
                            def inner(s, O=O, P=P, w=w, f=f, m=m, n=n):
                                W = w(s)
                                k = rik(f(s), W)
                                DS = L.mget(RI, D.ri, k)
                                done = lambda d: And(L.mhas(RI, D.ri, k), L.mhas(SD, DS, d), L.rank(SD, DS, d) < num(s.v(n)))
                                return And(upto(cur(s), lambda d: Or(gho(*O(s), d), ghi(*P(s), d), done(d)),
                                                lambda d: gso(*O(s), d) + gsi(*P(s), d) + If(done(d), score(S, f(s), W, L.mget(MEM, m(s), W)), RealVal(0)), lambda d: [gho(*O(s), d), gso(*O(s), d)]),
                                           alld(cur(s), lambda M2, d: ghin(*P(s), d) == Or(ghi(*P(s), d), inri(D.ri, f(s), W, d)), lambda d: [gho(*O(s), d), gso(*O(s), d)]))
                            out.append(("fields before iterator %d, words before iterator %d, documents before %s" % (r, q, n), inner))
                return out
            spec.ghost['loops'] = loops

    # ---------------------------------------------------------------- the filter
    @con('subtermsMatch(Columbus::MatcherPrivate*, Columbus::ResultFilter const&, unsigned long, unsigned long)')
    def c(spec, p, filt, t, d):
        D = data(spec, p)
        F = spec.get('ResultFilter', filt)
        spec.throws('std::out_of_range', t.u >= L.vlen(VF, F))
        spec.set('WordStore', D.at('ws'), D.ws)
        spec.returns(altok(D.ws, D.ri, F, t.u, d.u))
        if spec.mode == 'def':
            spec.ghost['filter'] = (D, F, t.u, d.u)


    # ---------------------------------------------------------------- searches
    def mdata(spec, this):
        """the private data of the matcher at this"""
        X, st = spec.X, spec.st
        if spec.mode == 'def':
            spec.requires("the matcher exists", And(this.obj != 0, Select(st.g['alive'], this.obj), this.off == 0, L.osize(this.obj) >= 8))
        p = X.load(st, 'ptr', this, False)
        return p, data(spec, p)

    @con('Matcher::relevancyMatch(Columbus::WordList const&, Columbus::SearchParameters const&, int, Columbus::MatchResults&)')
    def c(spec, this, query, params, xe, out):
        p, D = mdata(spec, this)
        q, P = spec.get('WordList', query), spec.get('SearchParameters', params)
        D.E = spec.get('ErrorValues', D.at('e'))
        S = state(spec, D, q, P, xe.s)
        v = spec.get('MatchResults', out)
        spec.requires("the limit is representable", And(-2**30 <= xe.s, xe.s < 2**30))
        spec.requires("costs are not negative", search.goodcosts(D.E))
        spec.set('MatchResults', out, None)
        spec.set('WordStore', D.at('ws'), D.ws)
        x = fresh('rx', ZP)
        spec.ensures("every document found is added once, with its sum", lambda new, ret: (lambda w: ForAll([x], rcnt(w, x) == rcnt(v, x) + If(And(isfound(S, doc(x)), rel(x) == total(S, doc(x))), 1, 0), patterns=[rcnt(w, x), rcnt(v, x)]))(
            L.nm(new.get('MatchResults', out))))
        if spec.mode == 'def':
            def loops(lc):
                res = []
                for (i, o), (srt, it) in sorted(lc.st.cells.items(), key=lambda x: str(x[0])):
                    if isinstance(it, IT) and it.cs == MDR:
                        def added(s, i=i, o=o):
                            it = s.st.cells[(i, o)][1]
                            M, w = s.load(MDR, it.cont), L.nm(s.load('MatchResults', out))
                            return ForAll([x], rcnt(w, x) == rcnt(v, x) + If(And(L.mhas(MDR, M, doc(x)), L.rank(MDR, M, doc(x)) < it.rank, rel(x) == L.mget(MDR, M, doc(x))), 1, 0), patterns=[rcnt(w, x), rcnt(v, x)])
                        res.append(("documents before iterator %s" % i, added))
                return res
            spec.ghost['loops'] = loops

    DEFAULTS = lambda: L.rmk(SP, [IntVal(1), L.vpush(VF, L.vempty(VF), L.vempty(VW2)), L.mempty(results.SW)])
    CSTR = 'char const*'
    for nm, qkind, given in (('Columbus::WordList const&, Columbus::SearchParameters const&', 'list', True), ('Columbus::WordList const&', 'list', False), (CSTR, 'text', False),
                             (CSTR + ', Columbus::SearchParameters const&', 'text', True), (capi.STRARG, 'string', False)):
        def c(spec, out, this, query, params=None, qkind=qkind):
            p, D = mdata(spec, this)
            P = spec.get('SearchParameters', params) if params is not None else DEFAULTS()
            if qkind == 'list':
                q = spec.get('WordList', query)
            else:
                T = lists.cstrarg(spec, query) if qkind == 'text' else spec.get('str', query)
                q = lists.tokens(T, lists.whiteset)
                bad = lists.anybad(T, lists.whiteset)
                spec.may_throw('std::runtime_error', bad)
                spec.may_throw('std::invalid_argument', bad)
                spec.normcond = Not(bad)
            matching(spec, out, D, q, P)
        old = C.get(N + 'Matcher::match(%s)' % nm)
        con('Matcher::match(%s)' % nm)(c)
        if old:     # (for the C functions, which see the matcher as an opaque value)
            new = C[N + 'Matcher::match(%s)' % nm]
            C[N + 'Matcher::match(%s)' % nm] = lambda spec, *a, old=old, new=new: (old if spec.X.cname.startswith('col_') else new)(spec, *a)

    def matching(spec, out, D, q, P):
        D.E = spec.get('ErrorValues', D.at('e'))
        S = state(spec, D, q, P, IntVal(0))
        F = L.rget(SP, P, 8)
        spec.requires("costs are not negative", search.goodcosts(D.E))
        spec.set('WordStore', D.at('ws'), D.ws)
        spec.set('MatchResults', out, None)
        x = fresh('rx', ZP)
        keeps = lambda x: kept(D.ws, D.ri, F, doc(x))
        spec.ensures("exactly the documents found that pass the filter, once, with their sum", lambda new, ret: (lambda w: ForAll([x], rcnt(w, x) == If(
            And(L.vlen(VW, q) > 0, isfound(S, doc(x)), rel(x) == total(S, doc(x)), keeps(x)), 1, 0), patterns=[rcnt(w, x)]))(L.nm(new.get('MatchResults', out))))
        if spec.mode == 'def':
            def loops(lc):
                t = fresh('ft', I)
                res = [("first round %s" % n, lambda s, n=n: num(s.v(n)) == num(lc.entry[n])) for n in lc.ints(32)]
                O = lambda s: L.nm(s.load('MatchResults', out))
                for (i, o), (srt, v) in sorted(lc.st.cells.items(), key=lambda x: str(x[0])):
                    if srt == 'MatchResults':
                        all_ = lambda s, i=i, o=o: L.nm(s.load('MatchResults', PA(i, o)))
                        upto = lambda s, n, all_=all_: ForAll([x], rcnt(O(s), x) == If(keeps(x), rcel(L.vel(VR, all_(s)), n, x), 0), patterns=[rcnt(O(s), x)])
                        for n in lc.ints(64):
                            res.append(("results before %s of %s" % (n, i), lambda s, n=n, upto=upto: upto(s, num(s.v(n)))))
                        for n, val in lc.outer(64):
                            res.append(("results before %s of %s" % (n, i), lambda s, val=val, upto=upto: upto(s, num(val))))
                            for a in lc.ints(64):
                                res.append(("alternatives before %s do not hold for result %s of %s" % (a, n, i), lambda s, a=a, val=val, all_=all_: ForAll([t], Implies(And(0 <= t, t < num(s.v(a))), Not(
                                    altok(D.ws, D.ri, F, t, doc(rat(all_(s), num(val)))))), patterns=[L.vat(VF, F, t), altok(D.ws, D.ri, F, t, doc(rat(all_(s), num(val))))])))
                return res
            spec.ghost['loops'] = loops


    # ---------------------------------------------------------------- online matching
    CNT = ('map', 'i64', 'i64')
    cval = lambda M, d: If(L.mhas(CNT, M, d), L.mget(CNT, M, d), IntVal(0))

    def allc(M, f, trig=lambda d: []):
        d = fresh('cd', I)
        M = L.nm(M)
        return ForAll([d], f(M, d), patterns=[L.mhas(CNT, M, d)] + [t for t in trig(d) if not L.badpat(t)])

    @con('countExacts(Columbus::MatcherPrivate*, Columbus::WordList const&, unsigned int)')
    def c(spec, out, p, query, f):
        D = data(spec, p)
        q = spec.get('WordList', query)
        spec.st.assume(L.vlen(VW, q) < 2**48)
        spec.set('WordStore', D.at('ws'), D.ws)
        spec.set(CNT, out, None)
        nth = lambda i: (lambda d: exacts(D.ws, D.ri, f.u, q, i, d))
        upto = lambda M, n, t=lambda d: []: allc(M, lambda M, d: And(L.mhas(CNT, M, d) == (n(d) > 0), cval(M, d) == n(d)), lambda d: [n(d)] + t(d))
        spec.ensures("how many words of the query each document has", lambda new, ret: upto(new.get(CNT, out), nth(L.vlen(VW, q))))
        if spec.mode == 'def':
            cur = lambda s: s.load(CNT, out)
            upto1 = lambda M, i: upto(M, lambda d: If(i <= 0, IntVal(0), exn(D.ws, D.ri, f.u, q, i - 1, d)), lambda d: [nth(i)(d)])

            def loops(lc):
                res = []
                for n in lc.ints(64):
                    res.append(("words before %s" % n, lambda s, n=n: upto1(cur(s), num(s.v(n)))))
                for n, v in lc.outer(64):
                    i = num(v)
                    W = L.vat(VW, q, i)
                    k = rik(f.u, wnum(D.ws, W))
                    DS = L.mget(RI, D.ri, k)
                    for e in lc.ptrs(PE):
                        def part(s, e=e, i=i, W=W, k=k, DS=DS):
                            done = lambda d: And(L.mhas(RI, D.ri, k), L.mhas(SD, DS, d), L.rank(SD, DS, d) < s.v(e).key)
                            nx = lambda d: exn(D.ws, D.ri, f.u, q, i, d)
                            return And(upto(cur(s), lambda d: nth(i)(d) + If(done(d), 1, 0), lambda d: [nth(i)(d)]),
                                       allc(cur(s), lambda M, d: nx(d) == nth(i)(d) + If(exact(D.ws, D.ri, f.u, W, d), 1, 0), lambda d: [nth(i)(d)]))
                        res.append(("words before %s, documents before %s" % (n, e), part))
                return res
            spec.ghost['loops'] = loops


    # (stated with exn / exacts and rpos: where document d's record is among the ordinary results)
    DEF = DEFAULTS()
    rec_ = lambda S, d: L.rmk(PR, [total(S, d), d])

    @con('Matcher::onlineMatch(Columbus::WordList const&, Columbus::Word const&)')
    def c(spec, out, this, query, field):
        p, D = mdata(spec, this)
        q, W = spec.get('WordList', query), spec.get('Word', field)
        spec.st.assume(L.vlen(VW, q) < 2**48)
        D.E = spec.get('ErrorValues', D.at('e'))
        S = state(spec, D, q, DEF, IntVal(0))
        nq = L.vlen(VW, q)
        spec.requires("costs are not negative", search.goodcosts(D.E))
        unknown = Not(known(D.ws, W))
        spec.throws('std::invalid_argument', And(unknown, Not(L.noconv)))
        spec.throws('std::runtime_error', And(unknown, L.noconv))
        spec.set('WordStore', D.at('ws'), D.ws)
        spec.set('MatchResults', out, None)
        spec.set(SZ, D.at('sz'), None)
        f = wnum(D.ws, W)
        size = lambda Z, d: (lambda k: If(L.mhas(SZ, Z, k), L.mget(SZ, Z, k), IntVal(0)))(L.rmk(SZ[1], [d, f]))
        cnt = lambda d: exacts(D.ws, D.ri, f, q, nq, d)
        base = lambda d: If(cnt(d) > 0, ToReal(2 * cnt(d) + If(And(cnt(d) == nq, cnt(d) == size(D.sz, d)), 100, 0)), RealVal(0))
        ff = lambda d: And(nq > 0, isfound(S, d))
        x, k = fresh('rx', ZP), fresh('sk', L.zs(SZ[1]))
        keeps = lambda Z: (lambda Z: ForAll([k], If(L.mhas(SZ, Z, k), L.mget(SZ, Z, k), IntVal(0)) == If(L.mhas(SZ, D.sz, k), L.mget(SZ, D.sz, k), IntVal(0)), patterns=[L.mhas(SZ, Z, k), L.mget(SZ, Z, k)]))(L.nm(Z))
        spec.ensures("sizes stay", lambda new, ret: keeps(new.get(SZ, D.at('sz'))))
        spec.ensures("exactly the documents found and those with a word of the query in the field, once, with sum and bonus", lambda new, ret: (lambda w: ForAll([x], rcnt(w, x) == If(
            And(Or(cnt(doc(x)) > 0, ff(doc(x))), rel(x) == base(doc(x)) + If(ff(doc(x)), total(S, doc(x)), RealVal(0))), 1, 0), patterns=[rcnt(w, x)]))(L.nm(new.get('MatchResults', out))))
        if spec.mode == 'def':
            def loops(lc):
                j = fresh('oj', I)
                cells = [(i, o, srt, v) for (i, o), (srt, v) in sorted(lc.st.cells.items(), key=lambda x: str(x[0]))]
                of = lambda s0: [(i, o) for i, o, srt, v in cells if srt == s0]
                itof = lambda cs: [(i, o, v) for i, o, srt, v in cells if isinstance(v, IT) and v.cs == cs]
                res = [("sizes stay", lambda s: keeps(s.load(SZ, D.at('sz'))))]
                G = lambda s, i, o, srt: L.nm(s.load(srt, PA(i, o)))
                for i, o, it0 in itof(CNT):
                    try:
                        M0 = L.nm(lc.X.toz(CNT, lc.X.load(lc.st, CNT, it0.cont, False)))
                    except VerifUnsupported:
                        continue            # the map is gone
                    spec.ghost.setdefault('hits', M0)
                    for ai, ao in of(MDR):
                        def direct(s, i=i, o=o, ai=ai, ao=ao):
                            it = s.st.cells[(i, o)][1]
                            M = L.nm(s.load(CNT, it.cont))
                            done = lambda d: And(L.mhas(CNT, M, d), L.rank(CNT, M, d) < it.rank)
                            return alld(s.load(MDR, PA(ai, ao)), lambda A, d: And(dhas(A, d) == done(d), dsum(A, d) == If(done(d), base(d), RealVal(0))), lambda d: [L.mhas(CNT, M, d)])
                        res.append(("counts before iterator %s" % i, direct))
                    for vi, vo in of(VDC):
                        def counted(s, i=i, o=o, vi=vi, vo=vo):
                            it, v = s.st.cells[(i, o)][1], G(s, vi, vo, VDC)
                            M = L.nm(s.load(CNT, it.cont))
                            e = L.vat(VDC, v, j)
                            return And(L.vlen(VDC, v) == it.rank, ForAll([j], Implies(And(0 <= j, j < it.rank), e == L.rmk(DC, [L.enum(CNT, M, j), L.mget(CNT, M, L.enum(CNT, M, j))])), patterns=[e]))
                        res.append(("counts before iterator %s in %s" % (i, vi), counted))
                if 'hits' in spec.ghost:
                    M0 = spec.ghost['hits']
                    inM = lambda d: L.mhas(CNT, M0, d)
                    acc = lambda A, has, s_: alld(A, lambda A, d: And(dhas(A, d) == has(d), dsum(A, d) == s_(d)), lambda d: [inM(d), isfound(S, d)])
                    for ai, ao in of(MDR):
                        A = lambda s, ai=ai, ao=ao: s.load(MDR, PA(ai, ao))
                        for e in lc.ptrs(PE):
                            def added(s, e=e, A=A):
                                done = lambda d: And(inM(d), L.rank(CNT, M0, d) < s.v(e).key)
                                return acc(A(s), done, lambda d: If(done(d), base(d), RealVal(0)))
                            res.append(("counts before %s" % e, added))
                        for i, o in of('MatchResults'):
                            R = lambda s, i=i, o=o: L.nm(s.load('MatchResults', PA(i, o)))
                            for n in lc.ints(64):
                                def merged(s, n=n, R=R, A=A):
                                    pos = lambda d: And(ff(d), rpos(L.vel(VR, R(s)), rlen(R(s)), rec_(S, d)) < num(s.v(n)))
                                    return acc(A(s), lambda d: Or(inM(d), pos(d)), lambda d: base(d) + If(pos(d), total(S, d), RealVal(0)))
                                res.append(("results before %s of %s" % (n, i), merged))
                                res.append(("result %s of %s is there once" % (n, i), lambda s, n=n, R=R: twice(L.vel(VR, R(s)), num(s.v(n)), rpos(L.vel(VR, R(s)), rlen(R(s)), rat(R(s), num(s.v(n)))), rlen(R(s)))))
                for i, o, it0 in itof(MDR):
                    def given(s, i=i, o=o):
                        it = s.st.cells[(i, o)][1]
                        M, w = s.load(MDR, it.cont), L.nm(s.load('MatchResults', out))
                        return ForAll([x], rcnt(w, x) == If(And(L.mhas(MDR, M, doc(x)), L.rank(MDR, M, doc(x)) < it.rank, rel(x) == L.mget(MDR, M, doc(x))), 1, 0), patterns=[rcnt(w, x)])
                    res.append(("documents before iterator %s" % i, given))
                return res
            spec.ghost['loops'] = loops


# the documents of a set appended to a list; the first r of them
docs, docsup = Function('docs', L.zs(VD), ZD, BoolSort(), L.zs(VD)), Function('docsup', L.zs(VD), ZD, I, L.zs(VD))
_dv, _D, _r, _b = Const('v', L.zs(VD)), Const('D', ZD), Int('r'), Const('b', BoolSort())
L.axiom('docs', ['docs'], ForAll([_dv, _D, _b], docs(_dv, _D, _b) == docsup(_dv, _D, If(_b, L.card(SD, _D), IntVal(0))), patterns=[docs(_dv, _D, _b)]))
_du = docsup(_dv, _D, _r)
L.axiom('docsup', ['docsup'], ForAll([_dv, _D, _r], Implies(_r >= 0, L.vlen(VD, _du) == L.vlen(VD, _dv) + _r), patterns=[_du]))
L.axiom('docsupat', ['docsup'], ForAll([_dv, _D, _r, _i], L.vat(VD, _du, _i) == If(_i < L.vlen(VD, _dv), L.vat(VD, _dv, _i), L.enum(SD, _D, _i - L.vlen(VD, _dv))), patterns=[L.vat(VD, _du, _i)]))


def hints(lc):
    spec = lc.X.spec
    out = []
    D = spec.ghost.get('data')
    if D:
        out.append(("the store stays", lambda S: S.load('WordStore', D.at('ws')) == D.ws))
    if spec.ghost.get('loops'):
        spec.ghost['htries'] = 3
        out += spec.ghost['loops'](lc)
    g = spec.ghost.get('filter')
    if g:
        D, F, t, d = g
        s = fresh('fs', I)
        for n in lc.ints(64):
            out.append(("conditions before %s hold" % n, lambda S, n=n: ForAll([s], Implies(And(0 <= s, s < num(S.v(n))), holds(D, F, t, s, d)), patterns=[L.vat(VW2, L.vat(VF, F, t), s)])))
    return out
