"""Contracts of the C interface (C18): every function has the cases of the C++ operation it stands for, but for failures,
where it returns its neutral value and changes only what the failing operation changes. No exception leaves any of them."""
from z3 import *
import cxx
import logic as L
import vc
import lists
from vc import *
from logic import fresh, I
from lists import N, alias
from word import cstrarg

cxx.CLASS_SIZES.update({'Matcher': 8})
MV = DeclareSort('MatcherV')
L.viewsort('Matcher', MV)
L.EQV['Matcher'] = lambda a, b: a == b
STRARG = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
NOID = 2**64 - 1
# what the matcher operations compute (uninterpreted here: C13-C17 say what it is)
mresults = Function('mresults', MV, L.StrS, L.zs('MatchResults'))
mindexed = Function('mindexed', MV, L.zs('Corpus'), MV)
merrors, mweights = Function('merrors', I, I, L.PtrDT), Function('mweights', I, I, L.PtrDT)
stdpairs = Function('stdpairs', L.zs('ErrorValues'), L.zs('ErrorValues'))
nodata, nostorage = Bool('nodata'), Bool('nostorage')
mfails, ifails = Function('mfails', MV, L.StrS, BoolSort()), Function('ifails', MV, L.zs('Corpus'), BoolSort())


def ops(lib, name, X, st, args):
    """the cases of a C++ operation on these arguments"""
    sub = vc.Spec(X, st, args, 'def', name)
    sub.fn = None
    lib.contracts[N + name](sub, *args)
    return sub, sub.finish()


def exactly(new, case, cases, subst, ret, result):
    """the effect of one case (every object some case sets is as this case says or unchanged) and its result"""
    X = new.X
    out = [case.cond]
    seen = []
    for c in [case] + [c for c in cases if c is not case]:
        for op, sort, p, v in c.effects:
            if op == 'destroy' or any(s == sort and same(q, p) for s, q in seen):
                continue
            if op == 'row':
                continue
            seen.append((sort, p))
            if c is not case:
                if subst:
                    continue        # the object under construction does not exist then
                v = X.toz(sort, X.load(X.st0, sort, p, check=False))
            if v is not None:
                out.append(L.eqv(sort, X.toz(sort, X.load(new.st, sort, p, check=False)), X.toz(sort, v)))
    for n, f in case.ens:
        out.append(f(new, ret))
    return out


def install(lib):
    C = lib.contracts

    def con(*names):
        def d(f):
            for n in names:
                C[n] = f
            return f
        return d

    def copypre(spec, sub):
        spec.pre += sub.pre
        spec.assumed += sub.assumed
        spec.hints += sub.hints
        if hasattr(spec.X, 'wordptrs'):
            pass

    def neutral_eq(X, new, ret, v):
        return X.veq(new.st, ret, v)

    def method(cname, op, neutral=None, conv=None):
        """C function = C++ member function on the object behind the handle"""
        @con(cname)
        def c(spec, *args):
            X, st = spec.X, spec.st
            if not hasattr(X, 'wordptrs'):
                X.wordptrs = []
            a = conv(spec, args) if conv else list(args)
            sub, cases = ops(lib, op, X, st, a)
            copypre(spec, sub)
            seen = []
            for k in cases:
                for e in k.effects:
                    if e[0] == 'set' and not any(e[1] == q[0] and same(e[2], q[1]) for q in seen):
                        seen.append((e[1], e[2]))
                        spec.set(e[1], e[2], None)
                    if e[0] == 'row' and not any(q[0] == 'row' and e[2].eq(q[1]) for q in seen):
                        seen.append(('row', e[2]))
                        spec.row(e[2])

            def mirrors(new, ret):
                alts = []
                for k in cases:
                    x = exactly(new, k, cases, False, ret, None)
                    if k.kind == 'ret':
                        if k.ret is not None:
                            x.append(X.veq(new.st, ret, k.ret))
                    elif neutral is not None:
                        x.append(X.veq(new.st, ret, neutral))
                    alts.append(And(*[y for y in x if y is not None]))
                return Or(*alts)
            spec.ensures("the effect and result of %s, the neutral value if it fails" % op.split('(')[0], mirrors)
        return c

    def new(cname, cls, op, conv=None):
        """C function = new object"""
        @con(cname)
        def c(spec, *args):
            X, st = spec.X, spec.st
            if not hasattr(X, 'wordptrs'):
                X.wordptrs = []
            a = conv(spec, args) if conv else list(args)
            X.nalloca += 1
            tmp = PA(X.nalloca, 0)
            sub, cases = ops(lib, op, X, st, [tmp] + a)
            copypre(spec, sub)
            spec.norm.owns.append(lambda nw, ret: [ret.obj])

            def made(nw, ret):
                ok, alts = [], []
                s2, cs = ops(lib, op, X, X.st0, [ret] + a)
                for k in cs:
                    if k.kind == 'ret':
                        alts.append(And(ret.obj >= X.next0, ret.off == 0, Select(nw.st.g['alive'], ret.obj), L.akind(ret.obj) == 1, L.osize(ret.obj) >= cxx.CLASS_SIZES[cls], *exactly(nw, k, cs, True, ret, None)))
                    else:
                        alts.append(And(ret.obj == 0, k.cond))
                return Or(*alts)
            spec.ensures("a new %s as %s makes it, null if that fails" % (cls, op.split('(')[0]), made)
        return c

    def delete(cname, cls):
        @con(cname)
        def c(spec, h):
            X, st = spec.X, spec.st
            spec.requires("the handle is null or came from the matching new", Or(h.obj == 0, And(Select(st.g['alive'], h.obj), h.off == 0, L.akind(h.obj) == 1, L.okind(h.obj) == 0)))
            spec.norm.frees.append(h.obj)
            spec.destroy(cls, h)
            spec.ensures("the object is released", lambda nw, ret: Or(h.obj == 0, Not(Select(nw.st.g['alive'], h.obj))))
        return c

    # ---------------------------------------------------------------- Matcher, as its users see it (assumed here)
    @con(N + 'Matcher::Matcher()')
    def c(spec, this):
        spec.throws('std::runtime_error', nostorage)
        spec.set('Matcher', this, Const('mnew', MV))

    @con(N + 'Matcher::~Matcher()')
    def c(spec, this):
        spec.get('Matcher', this)
        spec.destroy('Matcher', this)

    @con(N + 'Matcher::index(Columbus::Corpus const&)')
    def c(spec, this, c_):
        m, cp = spec.get('Matcher', this), spec.get('Corpus', c_)
        f = spec.throws('std::exception', ifails(m, cp))
        f.set('Matcher', this, None)
        spec.set('Matcher', this, mindexed(m, cp))

    @con(N + 'Matcher::match(char const*)')
    def c(spec, out, this, t):
        m = spec.get('Matcher', this)
        S = cstrarg(spec, t)
        spec.throws('std::exception', mfails(m, S))
        spec.set('MatchResults', out, mresults(m, S))

    @con(N + 'Matcher::getErrorValues()')
    def c(spec, this):
        spec.get('Matcher', this)
        r = merrors(*spec.X.addr(this))
        spec.returns(PB(L.PtrDT.po(r), L.PtrDT.pf(r)))

    @con(N + 'Matcher::getIndexWeights()')
    def c(spec, this):
        spec.get('Matcher', this)
        r = mweights(*spec.X.addr(this))
        spec.returns(PB(L.PtrDT.po(r), L.PtrDT.pf(r)))

    @con(N + 'ErrorValues::addStandardErrors()')
    def c(spec, this):
        E = spec.get('ErrorValues', this)
        spec.throws('std::runtime_error', nodata)
        spec.set('ErrorValues', this, stdpairs(E))

    # ---------------------------------------------------------------- the C functions
    NULL = PB(IntVal(0), IntVal(0))
    new('col_word_new', 'Word', 'Word::Word(char const*)')
    delete('col_word_delete', 'Word')
    method('col_word_length', 'Word::length() const', IntVal(0))
    method('col_word_as_utf8', 'Word::toUtf8(char*, unsigned int) const')
    new('col_document_new', 'Document', 'Document::Document(unsigned long)')
    delete('col_document_delete', 'Document')
    method('col_document_get_id', 'Document::getID() const', IntVal(NOID))
    method('col_document_add_text', 'Document::addText(Columbus::Word const&, %s)' % STRARG, None,
           lambda spec, a: [a[0], a[1], PV('str', cstrarg(spec, a[2]))])
    new('col_matcher_new', 'Matcher', 'Matcher::Matcher()')
    delete('col_matcher_delete', 'Matcher')
    method('col_matcher_index', 'Matcher::index(Columbus::Corpus const&)')
    method('col_matcher_get_error_values', 'Matcher::getErrorValues()', NULL)
    method('col_matcher_get_index_weights', 'Matcher::getIndexWeights()', NULL)
    new('col_match_results_new', 'MatchResults', 'MatchResults::MatchResults()')
    delete('col_match_results_delete', 'MatchResults')
    method('col_match_results_size', 'MatchResults::size() const', IntVal(0))
    method('col_match_results_get_id', 'MatchResults::getDocumentID(unsigned long) const', IntVal(NOID))
    method('col_match_results_get_relevancy', 'MatchResults::getRelevancy(unsigned long) const', RealVal(-1))
    new('col_corpus_new', 'Corpus', 'Corpus::Corpus()')
    delete('col_corpus_delete', 'Corpus')
    method('col_corpus_add_document', 'Corpus::addDocument(Columbus::Document const&)')
    method('col_error_values_add_standard_errors', 'ErrorValues::addStandardErrors()')
    method('col_error_values_set_substring_mode', 'ErrorValues::setSubstringMode()')
    method('col_index_weights_set_weight', 'IndexWeights::setWeight(Columbus::Word const&, double)')
    method('col_index_weights_get_weight', 'IndexWeights::getWeight(Columbus::Word const&) const', RealVal(1))

    @con('col_matcher_match')
    def c(spec, m, q):
        X, st = spec.X, spec.st
        v = spec.get('Matcher', m)
        S = cstrarg(spec, q)
        spec.norm.owns.append(lambda nw, ret: [ret.obj])
        spec.ensures("new results as Matcher::match gives them, null if that fails",
                     lambda nw, ret: If(mfails(v, S), ret.obj == 0, And(ret.obj >= X.next0, ret.off == 0, Select(nw.st.g['alive'], ret.obj), L.akind(ret.obj) == 1, L.osize(ret.obj) >= 8,
                                                        L.eqv('MatchResults', nw.get('MatchResults', ret), mresults(v, S)))))
