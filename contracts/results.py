"""Contracts of MatchResults, IndexMatches, IndexWeights, ResultFilter, SearchParameters, MatcherStatistics (C14-C16, C19 and parts of others)."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, StrS, WordS
from lists import alias, pimpl, at, N

PR = ('rec', ((0, 'f64'), (8, 'i64')))          # relevancy, document
VR = ('vec', PR)
MD = ('rec', ((0, 'Word'), (16, 'i32'), (20, 'i32')))
VM = ('vec', MD)
WW = ('rec', ((0, 'Word'), (16, 'Word')))
VW2 = ('vec', WW)
VF = ('vec', VW2)
MWD = ('map', 'Word', 'f64')
SW = ('set', 'Word')
SP = ('rec', ((0, 'i8'), (8, 'ResultFilter'), (16, SW)))
MS = ('map', 'i32', 'i64')
cxx.CLASS_SIZES.update({'MatchResults': 8, 'IndexMatches': 8, 'IndexWeights': 8, 'ResultFilter': 8, 'SearchParameters': 8, 'MatcherStatistics': 8})
cxx.RECORDS['Columbus::MatchData'] = MD
alias('MatchResults', VR)
alias('IndexMatches', VM)
alias('IndexWeights', MWD)
alias('ResultFilter', VF)
alias('SearchParameters', SP)
alias('MatcherStatistics', MS)

# ---------------------------------------------------------------- the ranking: a stable sort by falling relevancy
ZR = L.zs(VR)
rlen, rat = lambda v: L.vlen(VR, v), lambda v, i: L.vat(VR, v, i)
rel, doc = lambda x: L.rget(PR, x, 0), lambda x: L.rget(PR, x, 8)
bef = lambda v, a, b: Or(rel(rat(v, a)) > rel(rat(v, b)), And(rel(rat(v, a)) == rel(rat(v, b)), a < b))
inr = lambda v, i: And(0 <= i, i < rlen(v))
_v, _w, _i, _j, _x = Const('v', ZR), Const('w', ZR), Int('i'), Int('j'), Const('x', L.zs(PR))
push = lambda v, x: L.vpush(VR, v, x)
req = lambda a, b: L.eqv(VR, a, b)


weight = lambda m, x: If(L.mhas(MWD, m, x), L.mget(MWD, m, x), RealVal(1))


def sorting(tag):
    """ranking(v)[i] = v[sig(v, i)], sig a permutation that puts the indices in the order `bef`: its definition"""
    ss, sg, isg = Function('ranking' + tag, ZR, ZR), Function('sig' + tag, ZR, I, I), Function('isig' + tag, ZR, I, I)
    return (ss, sg, isg), [
        ForAll([_v], rlen(ss(_v)) == rlen(_v), patterns=[ss(_v)]),
        ForAll([_v, _i], Implies(inr(_v, _i), And(inr(_v, sg(_v, _i)), isg(_v, sg(_v, _i)) == _i)), patterns=[sg(_v, _i)]),
        ForAll([_v, _i], Implies(inr(_v, _i), And(inr(_v, isg(_v, _i)), sg(_v, isg(_v, _i)) == _i)), patterns=[isg(_v, _i)]),
        ForAll([_v, _i, _j], Implies(And(inr(_v, _i), inr(_v, _j), _i < _j), bef(_v, sg(_v, _i), sg(_v, _j))), patterns=[MultiPattern(sg(_v, _i), sg(_v, _j))]),
        ForAll([_v, _i], Implies(inr(_v, _i), rat(ss(_v), _i) == rat(_v, sg(_v, _i))), patterns=[rat(ss(_v), _i)]),
    ]


(ranking, sig, isig), DEFS = sorting('')
for f in DEFS:
    L.axiom('ranking', ['ranking'], f)
# a vector that is in order is its own ranking (lemma 'in order'); da, db: a pair out of order when there is one
da, db = Function('da', ZR, I), Function('db', ZR, I)
outof = lambda v: And(0 <= da(v), da(v) < db(v), db(v) < rlen(v), rel(rat(v, da(v))) < rel(rat(v, db(v))))
L.axiom('ranked', ['ranking'], ForAll([_v, _i], Implies(inr(_v, _i), Or(outof(_v), rat(ranking(_v), _i) == rat(_v, _i))), patterns=[rat(ranking(_v), _i)]))
# one more result, and all of another set: by lemmas 'add one' and 'add all' these are functions of the rankings
radd, rcat = Function('radd', ZR, L.zs(PR), ZR), Function('rcat', ZR, ZR, ZR)
_p, _q = radd(ranking(_v), _x), ranking(push(_v, _x))
L.axiom('radd', ['radd'], ForAll([_v, _x], rlen(radd(_v, _x)) == rlen(_v) + 1, patterns=[radd(_v, _x)]))
L.axiom('raddat', ['radd', 'ranking'], ForAll([_v, _x, _i], Implies(And(0 <= _i, _i <= rlen(_v)), rat(_p, _i) == rat(_q, _i)), patterns=[rat(_p, _i)]))
# (ranking(ranking(v)) has the elements of ranking(v): lemma 'in order'; so the same holds with v ranked already)
_q1 = ranking(push(ranking(_v), _x))
L.axiom('raddat', ['radd', 'ranking'], ForAll([_v, _x, _i], Implies(And(0 <= _i, _i <= rlen(_v)), rat(_p, _i) == rat(_q1, _i)), patterns=[rat(_p, _i)]))
_p2, _q2 = rcat(ranking(_v), ranking(_w)), ranking(L.vcat(VR, _v, _w))
L.axiom('rcat', ['rcat'], ForAll([_v, _w], rlen(rcat(_v, _w)) == rlen(_v) + rlen(_w), patterns=[rcat(_v, _w)]))
L.axiom('rcatat', ['rcat', 'ranking'], ForAll([_v, _w, _i], Implies(And(0 <= _i, _i < rlen(_v) + rlen(_w)), rat(_p2, _i) == rat(_q2, _i)), patterns=[rat(_p2, _i)]))


def lemmas_ranking():
    (ss, sg, isg), defs = sorting('0')
    out = []
    v, w, x = Consts('lv lw', ZR) + [Const('lx', L.zs(PR))]
    i, j, d = Ints('li lj ld')

    def isorder(u, p, ip):
        """p (inverse ip) is a permutation of u's indices in the order bef: goals at arbitrary i, j"""
        return [("range", Implies(inr(u, i), And(inr(u, p(i)), ip(p(i)) == i))), ("inverse", Implies(inr(u, i), And(inr(u, ip(i)), p(ip(i)) == i))),
                ("order", Implies(And(inr(u, i), inr(u, j), i < j), bef(u, p(i), p(j))))]

    # two such permutations agree: at a first index where they differ, each would put the other's index later
    p, ip = Function('lp', I, I), Function('lip', I, I)
    hyp = [ForAll([_i], Implies(inr(v, _i), And(inr(v, p(_i)), ip(p(_i)) == _i)), patterns=[p(_i)]), ForAll([_i], Implies(inr(v, _i), And(inr(v, ip(_i)), p(ip(_i)) == _i)), patterns=[ip(_i)]),
           ForAll([_i, _j], Implies(And(inr(v, _i), inr(v, _j), _i < _j), bef(v, p(_i), p(_j))), patterns=[MultiPattern(p(_i), p(_j))]),
           inr(v, d), ForAll([_i], Implies(And(0 <= _i, _i < d), p(_i) == sg(v, _i)), patterns=[p(_i), sg(v, _i)])]
    a, b = isg(v, p(d)), ip(sg(v, d))
    out.append(("the ordering permutation is unique", defs + hyp + [inr(v, a), inr(v, b), sg(v, a) == p(d), p(b) == sg(v, d)], p(d) == sg(v, d)))
    out.append(("the ordering permutation is unique: positions", defs + hyp, And(inr(v, a), inr(v, b), sg(v, a) == p(d), p(b) == sg(v, d))))
    # in order -> identity
    ordered = ForAll([_i, _j], Implies(And(0 <= _i, _i < _j, _j < rlen(v)), rel(rat(v, _i)) >= rel(rat(v, _j))), patterns=[MultiPattern(rat(v, _i), rat(v, _j))])
    for n, g in isorder(v, lambda k: k, lambda k: k):
        out.append(("in order: the identity, " + n, defs + [ordered], g))
    out.append(("in order", defs + [ForAll([_i], Implies(inr(v, _i), sg(v, _i) == _i), patterns=[sg(v, _i)]), inr(v, i)], rat(ss(v), i) == rat(v, i)))
    # add one, add all
    n = rlen(v)
    cases = [("add one", push(v, x), push(ss(v), x), lambda k: If(k < n, sg(v, k), k), lambda k: If(k < n, isg(v, k), k)),
             ("add all", L.vcat(VR, v, w), L.vcat(VR, ss(v), ss(w)), lambda k: If(k < n, sg(v, k), n + sg(w, k - n)), lambda k: If(k < n, isg(v, k), n + isg(w, k - n)))]
    ax = [f for s, f, nm in L.AXIOMS if nm in ('cat', 'catat')]
    for nm, u, u2, tau, itau in cases:
        P, IP = (lambda k: tau(sg(u2, k))), (lambda k: isg(u2, itau(k)))
        base = defs + ax + [rlen(u) == rlen(u2)]
        out.append((nm + ": lengths", defs + ax, rlen(u) == rlen(u2)))
        k, m = Ints('lk lm')
        out.append((nm + ": same elements", base + [inr(u2, k)], rat(u2, k) == rat(u, tau(k))))
        out.append((nm + ": order kept", base + [inr(u2, k), inr(u2, m), rat(u2, k) == rat(u, tau(k)), rat(u2, m) == rat(u, tau(m)), bef(u2, k, m)], bef(u, tau(k), tau(m))))
        out.append((nm + ": inverse", base + [inr(u2, k)], And(inr(u, tau(k)), itau(tau(k)) == k, inr(u, itau(k)), tau(itau(k)) == k)))
        kept = [ForAll([_i], Implies(inr(u2, _i), And(rat(u2, _i) == rat(u, tau(_i)), inr(u, tau(_i)), itau(tau(_i)) == _i, inr(u, itau(_i)), tau(itau(_i)) == _i)), patterns=[sg(u2, _i), isg(u2, _i)])]
        T = Function('ltau', I, I)
        IT_ = Function('litau', I, I)
        facts = [ForAll([_i], Implies(inr(u2, _i), And(inr(u, T(_i)), IT_(T(_i)) == _i)), patterns=[T(_i)]), ForAll([_i], Implies(inr(u2, _i), And(inr(u2, IT_(_i)), T(IT_(_i)) == _i)), patterns=[IT_(_i)]),
                 ForAll([_i, _j], Implies(And(inr(u2, _i), inr(u2, _j), bef(u2, _i, _j)), bef(u, T(_i), T(_j))), patterns=[MultiPattern(T(_i), T(_j))])]
        for n2, g in isorder(u, lambda k: T(sg(u2, k)), lambda k: isg(u2, IT_(k))):
            out.append((nm + ": the composed permutation, " + n2, base + facts, g))
        # so sig(u) is the composed permutation
        out.append((nm, base + [inr(u, i), sg(u, i) == T(sg(u2, i)), ForAll([_i], Implies(inr(u2, _i), rat(u2, _i) == rat(u, T(_i))), patterns=[T(_i)])], rat(ss(u), i) == rat(ss(u2), i)))
    return out


# ---------------------------------------------------------------- order of matches
merr = lambda m: L.rget(MD, m, 20)
serr = lambda m: (lambda e: If(e >= 2**31, e - 2**32, e))(merr(m))


def install(lib):
    C = lib.contracts
    f1 = fresh
    lib.reps['MatchResults'] = pimpl('MatchResults', [(VR, 0), ('i8', 24)], 32, lambda X, st, o: ranking(at(X, st, VR, o, 0)),
                                     lambda X, st, o: [("the flag is a truth value", at(X, st, 'i8', o, 24) <= 1),
                                                       ("results marked sorted are in order", Implies(at(X, st, 'i8', o, 24) != 0, inorder(at(X, st, VR, o, 0))))])
    lib.reps['IndexMatches'] = pimpl('IndexMatches', [(VM, 0)], 24, lambda X, st, o: at(X, st, VM, o, 0))
    lib.reps['IndexWeights'] = pimpl('IndexWeights', [(MWD, 0)], 48, lambda X, st, o: at(X, st, MWD, o, 0))
    lib.reps['ResultFilter'] = pimpl('ResultFilter', [(VF, 0)], 24, lambda X, st, o: at(X, st, VF, o, 0), lambda X, st, o: [("it has an alternative", L.vlen(VF, at(X, st, VF, o, 0)) >= 1)])
    lib.reps['SearchParameters'] = pimpl('SearchParameters', [('i8', 0), ('ResultFilter', 8), (SW, 16)], 64,
                                         lambda X, st, o: L.rmk(SP, [at(X, st, 'i8', o, 0), at(X, st, 'ResultFilter', o, 8), at(X, st, SW, o, 16)]),
                                         lambda X, st, o: [("the flag is a truth value", at(X, st, 'i8', o, 0) <= 1)])
    lib.reps['MatcherStatistics'] = pimpl('MatcherStatistics', [(MS, 0)], 48, lambda X, st, o: at(X, st, MS, o, 0))
    lib.defaults.update({'MatchResults': lambda: L.vempty(VR), 'IndexMatches': lambda: L.vempty(VM)})
    # how vectors may be sorted
    lib.orders[PR] = [(lambda x, y: rel(x) > rel(y), lambda X, st, v, stable: ranking(v) if stable else anyorder(st, VR, v, lambda a, b: rel(a) >= rel(b)))]
    lib.orders[MD] = [(lambda x, y: serr(x) < serr(y), lambda X, st, v, stable: anyorder(st, VM, v, lambda a, b: serr(a) <= serr(b)))]

    def con(*names):
        def d(f):
            for n in names:
                C[N + n] = f
            return f
        return d

    # ---------------------------------------------------------------- MatchResults
    @con('MatchResults::MatchResults()')
    def c(spec, this):
        spec.set('MatchResults', this, L.vempty(VR))

    @con('MatchResults::MatchResults(Columbus::MatchResults const&)')
    def c(spec, this, o):
        spec.set('MatchResults', this, spec.get('MatchResults', o))

    @con('MatchResults::MatchResults(Columbus::MatchResults&&)')
    def c(spec, this, o):
        spec.set('MatchResults', this, spec.get('MatchResults', o))
        spec.moved('MatchResults', o)

    @con('MatchResults::~MatchResults()')
    def c(spec, this):
        spec.get_any('MatchResults', this)
        spec.destroy('MatchResults', this)

    @con('MatchResults::operator=(Columbus::MatchResults const&)')
    def c(spec, this, o):
        spec.get('MatchResults', this)
        spec.set('MatchResults', this, spec.get('MatchResults', o))
        spec.returns(this)

    @con('MatchResults::operator=(Columbus::MatchResults&&)')
    def c(spec, this, o):
        spec.get_any('MatchResults', this)
        spec.requires("results are not moved into themselves", Not(spec.X.ptr_eq(spec.st, this, o)))
        spec.set('MatchResults', this, spec.get('MatchResults', o))
        spec.moved('MatchResults', o)
        spec.returns(this)

    @con('MatchResults::addResult(unsigned long, double)')
    def c(spec, this, d, r):
        spec.set('MatchResults', this, radd(spec.get('MatchResults', this), L.rmk(PR, [r, d.u])))

    @con('MatchResults::addResults(Columbus::MatchResults const&)')
    def c(spec, this, o):
        spec.requires("another set of results is added", Not(spec.X.ptr_eq(spec.st, this, o)))
        spec.set('MatchResults', this, rcat(spec.get('MatchResults', this), spec.get('MatchResults', o)))

    @con('MatchResults::size() const')
    def c(spec, this):
        spec.returns(rlen(spec.get('MatchResults', this)))

    @con('MatchResults::copyResult(Columbus::MatchResults const&, unsigned long)')
    def c(spec, this, o, i):
        v, w = spec.get('MatchResults', this), spec.get('MatchResults', o)
        spec.throws('std::out_of_range', i.u >= rlen(w))
        spec.set('MatchResults', this, radd(v, rat(w, i.u)))
        spec.rerep('MatchResults', o)

    for nm, f in (('getDocumentID', doc), ('getRelevancy', rel)):
        @con('MatchResults::%s(unsigned long) const' % nm)
        def c(spec, this, i, f=f):
            v = spec.get('MatchResults', this)
            spec.throws('std::out_of_range', i.u >= rlen(v))
            spec.rerep('MatchResults', this)
            spec.returns(f(rat(v, i.u)))

    # ---------------------------------------------------------------- IndexMatches
    @con('IndexMatches::IndexMatches()')
    def c(spec, this):
        spec.set('IndexMatches', this, L.vempty(VM))

    @con('IndexMatches::~IndexMatches()')
    def c(spec, this):
        spec.get('IndexMatches', this)
        spec.destroy('IndexMatches', this)

    @con('IndexMatches::addMatch(Columbus::Word const&, unsigned int, int)')
    def c(spec, this, q, w, e):
        spec.get('Word', q)
        spec.set('IndexMatches', this, L.vpush(VM, spec.get('IndexMatches', this), L.rmk(MD, [L.emptyw, w.u, e.u])))

    @con('IndexMatches::size() const')
    def c(spec, this):
        spec.returns(L.vlen(VM, spec.get('IndexMatches', this)))

    for nm, off, srt in (('getMatch', 16, 'i32'), ('getQuery', 0, 'Word'), ('getMatchError', 20, None)):
        @con('IndexMatches::%s(unsigned long) const' % nm)
        def c(spec, this, i, off=off, srt=srt):
            v = spec.get('IndexMatches', this)
            spec.throws('std::out_of_range', i.u >= L.vlen(VM, v))
            x = L.rget(MD, L.vat(VM, v, i.u), off)
            spec.returns_ref(srt, x) if srt else spec.returns(x)

    @con('IndexMatches::clear()')
    def c(spec, this):
        spec.get('IndexMatches', this)
        spec.set('IndexMatches', this, L.vempty(VM))

    @con('IndexMatches::sort()')
    def c(spec, this):
        v = spec.get('IndexMatches', this)
        if spec.mode == 'call':
            spec.set('IndexMatches', this, sortedmatches(v))
        else:
            spec.set('IndexMatches', this)
            spec.ensures("the same matches in growing order of error", lambda new, ret: ordered_of(VM, v, new.get('IndexMatches', this), lambda a, b: serr(a) <= serr(b)))

    # ---------------------------------------------------------------- IndexWeights
    @con('IndexWeights::IndexWeights()')
    def c(spec, this):
        spec.set('IndexWeights', this, L.mempty(MWD))

    @con('IndexWeights::~IndexWeights()')
    def c(spec, this):
        spec.get('IndexWeights', this)
        spec.destroy('IndexWeights', this)

    @con('IndexWeights::setWeight(Columbus::Word const&, double)')
    def c(spec, this, w, d):
        spec.set('IndexWeights', this, L.mput(MWD, spec.get('IndexWeights', this), spec.get('Word', w), d))

    @con('IndexWeights::getWeight(Columbus::Word const&) const')
    def c(spec, this, w):
        m, x = spec.get('IndexWeights', this), spec.get('Word', w)
        spec.returns(weight(m, x))

    # ---------------------------------------------------------------- ResultFilter
    @con('ResultFilter::ResultFilter()')
    def c(spec, this):
        spec.set('ResultFilter', this, L.vpush(VF, L.vempty(VF), L.vempty(VW2)))

    @con('ResultFilter::~ResultFilter()')
    def c(spec, this):
        spec.get('ResultFilter', this)
        spec.destroy('ResultFilter', this)

    # (the constructor calls this before there is an alternative)
    @con('ResultFilter::addNewTerm()')
    def c(spec, this):
        spec.set('ResultFilter', this, L.vpush(VF, spec.get('ResultFilter', this, without=['it has an alternative']), L.vempty(VW2)))

    @con('ResultFilter::addNewSubTerm(Columbus::Word const&, Columbus::Word const&)')
    def c(spec, this, f, w):
        v = spec.get('ResultFilter', this)
        n = L.vlen(VF, v)
        t = L.vat(VF, v, n - 1)
        spec.set('ResultFilter', this, L.vmk(VF, n, Store(L.vel(VF, v), n - 1, L.vpush(VW2, t, L.rmk(WW, [spec.get('Word', f), spec.get('Word', w)])))))

    for nm, off in (('getField', 0), ('getWord', 16)):
        @con('ResultFilter::%s(unsigned long, unsigned long) const' % nm)
        def c(spec, this, i, j, off=off):
            v = spec.get('ResultFilter', this)
            t = L.vat(VF, v, i.u)
            spec.throws('std::out_of_range', Or(i.u >= L.vlen(VF, v), j.u >= L.vlen(VW2, t)))
            spec.returns_ref('Word', L.rget(WW, L.vat(VW2, t, j.u), off))

    @con('ResultFilter::numTerms() const')
    def c(spec, this):
        spec.returns(L.vlen(VF, spec.get('ResultFilter', this)))

    @con('ResultFilter::numSubTerms(unsigned long) const')
    def c(spec, this, i):
        v = spec.get('ResultFilter', this)
        spec.throws('std::out_of_range', i.u >= L.vlen(VF, v))
        spec.returns(L.vlen(VW2, L.vat(VF, v, i.u)))

    # ---------------------------------------------------------------- SearchParameters
    dyn, flt, nos = (lambda p: L.rget(SP, p, 0)), (lambda p: L.rget(SP, p, 8)), (lambda p: L.rget(SP, p, 16))
    sp = lambda d, f, s: L.rmk(SP, [d, f, s])

    @con('SearchParameters::SearchParameters()')
    def c(spec, this):
        spec.set('SearchParameters', this, sp(IntVal(1), L.vpush(VF, L.vempty(VF), L.vempty(VW2)), L.mempty(SW)))

    @con('SearchParameters::~SearchParameters()')
    def c(spec, this):
        spec.get('SearchParameters', this)
        spec.destroy('SearchParameters', this)

    @con('SearchParameters::isDynamic() const')
    def c(spec, this):
        spec.returns(dyn(spec.get('SearchParameters', this)) != 0)

    @con('SearchParameters::setDynamic(bool)')
    def c(spec, this, b):
        p = spec.get('SearchParameters', this)
        spec.set('SearchParameters', this, sp(If(b.b, IntVal(1), IntVal(0)), flt(p), nos(p)))

    @con('SearchParameters::getDynamicError(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.get('SearchParameters', this)
        spec.returns(If(L.wlen(spec.get('Word', w)) < 2, IntVal(100), IntVal(200)))

    @con('SearchParameters::getResultFilter() const')
    def c(spec, this):
        spec.returns_ref('ResultFilter', flt(spec.get('SearchParameters', this)))

    @con('SearchParameters::addNonsearchingField(Columbus::Word const&)')
    def c(spec, this, w):
        p = spec.get('SearchParameters', this)
        spec.set('SearchParameters', this, sp(dyn(p), flt(p), Store(nos(p), spec.get('Word', w), True)))

    @con('SearchParameters::isNonsearchingField(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(Select(nos(spec.get('SearchParameters', this)), spec.get('Word', w)))

    @con('SearchParameters::looseningIterations() const')
    def c(spec, this):
        spec.get('SearchParameters', this)
        spec.returns(IntVal(1))

    # ---------------------------------------------------------------- MatcherStatistics
    @con('MatcherStatistics::MatcherStatistics()')
    def c(spec, this):
        spec.set('MatcherStatistics', this, L.mempty(MS))

    @con('MatcherStatistics::~MatcherStatistics()')
    def c(spec, this):
        spec.get('MatcherStatistics', this)
        spec.destroy('MatcherStatistics', this)

    tot = lambda m, w: If(L.mhas(MS, m, w), L.mget(MS, m, w), IntVal(0))

    @con('MatcherStatistics::wordProcessed(unsigned int)')
    def c(spec, this, w):
        m = spec.get('MatcherStatistics', this)
        spec.requires("counts are representable", tot(m, w.u) < 2**63)
        spec.set('MatcherStatistics', this, L.mput(MS, m, w.u, tot(m, w.u) + 1))

    @con('MatcherStatistics::getTotalWordCount(unsigned int) const')
    def c(spec, this, w):
        spec.returns(tot(spec.get('MatcherStatistics', this), w.u))

    @con('MatcherStatistics::addedWordToIndex(unsigned int, Columbus::Word const&)')
    def c(spec, this, w, f):
        spec.get('MatcherStatistics', this)
        spec.get('Word', f)


def inorder(v):
    i, j = fresh('oi', I), fresh('oj', I)
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < rlen(v)), rel(rat(v, i)) >= rel(rat(v, j))), patterns=[MultiPattern(rat(v, i), rat(v, j))])


sortedmatches = Function('sortedmatches', L.zs(VM), L.zs(VM))
pi, ipi = {}, {}


def perms(s):
    k = L.sname(s)
    if k not in pi:
        Z = L.zs(s)
        pi[k], ipi[k] = Function('pi_' + k, Z, Z, I, I), Function('ipi_' + k, Z, Z, I, I)
    return pi[k], ipi[k]


def ordered_of(s, v, w, le, trig=None):
    """w has the elements of v, in the order le"""
    f, g = perms(s)
    v, w = L.nm(v), L.nm(w)
    i, j = fresh('oi', I), fresh('oj', I)
    n = L.vlen(s, v)
    return And(L.vlen(s, w) == n,
               ForAll([i], Implies(And(0 <= i, i < n), And(0 <= f(v, w, i), f(v, w, i) < n, L.vat(s, w, i) == L.vat(s, v, f(v, w, i)), g(v, w, f(v, w, i)) == i)), patterns=[L.vat(s, w, i), f(v, w, i)]),
               ForAll([i], Implies(And(0 <= i, i < n), And(0 <= g(v, w, i), g(v, w, i) < n, f(v, w, g(v, w, i)) == i)), patterns=[g(v, w, i), L.vat(s, v, i)]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < n), le(L.vat(s, w, i), L.vat(s, w, j))), patterns=[MultiPattern(L.vat(s, w, i), L.vat(s, w, j))]))


def anyorder(st, s, v, le):
    w = fresh('sorted', L.zs(s))
    st.assume(ordered_of(s, v, w, le))
    return w


_m = Const('m', L.zs(VM))
L.axiom('sortedmatches', ['sortedmatches'], ForAll([_m], ordered_of(VM, _m, sortedmatches(_m), lambda a, b: serr(a) <= serr(b)), patterns=[sortedmatches(_m)]))
