"""Contracts of WordList, Document, Corpus and of text splitting (C05, C06, parts of C19, C21)."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, StrS, WordS
from word import cstrarg

N = 'Columbus::'
VW = ('vec', 'Word')
TX = ('map', 'Word', 'WordList')
DOC = ('rec', ((0, 'i64'), (8, TX)))
VD = ('vec', 'Document')
cxx.CLASS_SIZES.update({'Word': 16, 'WordList': 8, 'Document': 8, 'Corpus': 8})


def alias(cls, sort, eq=None):
    L.viewsort(cls, L.zs(sort))
    L.BASE[cls] = sort
    L.EQV[cls] = lambda a, b: L.eqv(sort, a, b)


alias('WordList', VW)
alias('Document', DOC)
alias('Corpus', VD)


def pimpl(cls, fields, size, view, extra=None):
    """class holding one pointer to its private data; fields: [(sort, offset)] of the private struct"""
    def vw(X, st, p):
        o = X.load(st, 'ptr', p, False).obj
        return view(X, st, o)

    def wf(X, st, p):
        t = X.load(st, 'ptr', p, False)
        o = t.obj
        ad = X.addr(p)
        out = [("it is not moved-from", o != 0), ("its data is memory of its own", And(Select(st.g['alive'], o), t.off == 0, L.akind(o) == 1, L.okind(o) == 0, L.osize(o) >= size)),
               ("its data has one owner", Select(st.g['owner'], o) == L.PtrDT.mkptr(ad[0], ad[1]))]
        return out + (extra(X, st, o) if extra else [])
    rep = Rep(cls, [('ptr', 0)], vw, wf, lambda X, st, p: [X.load(st, 'ptr', p, False).obj], eq=lambda a, b: L.eqv(cls, a, b), rowsorts=tuple(s for s, o in fields))
    rep.movedfrom = lambda X, st, p: X.load(st, 'ptr', p, False).obj == 0
    return rep


def at(X, st, sort, o, off):
    return X.toz(sort, X.load(st, sort, PB(o, off), False))


# ---- counting
cntw = Function('cntw', L.zs(VW), WordS, I, I)
_v, _w, _i = Const('v', L.zs(VW)), Const('w', WordS), Int('i')
L.axiom('cntw', ['cntw'], ForAll([_v, _w, _i], And(Implies(_i <= 0, cntw(_v, _w, _i) == 0), Implies(_i >= 0, And(cntw(_v, _w, _i) >= 0, cntw(_v, _w, _i) <= _i))), patterns=[cntw(_v, _w, _i)]))
L.axiom('cntwstep', ['cntw'], ForAll([_v, _w, _i], Implies(_i >= 0, cntw(_v, _w, _i + 1) == cntw(_v, _w, _i) + If(L.vat(VW, _v, _i) == _w, 1, 0)),
                                    patterns=[MultiPattern(cntw(_v, _w, _i), L.vat(VW, _v, _i))]))
count = lambda v, w: cntw(v, w, L.vlen(VW, v))
sumw = Function('sumw', L.zs(TX), WordS, I, I)
_m = Const('m', L.zs(TX))
L.axiom('sumw', ['sumw'], ForAll([_m, _w, _i], Implies(_i <= 0, sumw(_m, _w, _i) == 0), patterns=[sumw(_m, _w, _i)]))
L.axiom('sumwstep', ['sumw'], ForAll([_m, _w, _i], Implies(_i >= 0, sumw(_m, _w, _i + 1) == sumw(_m, _w, _i) + count(L.mget(TX, _m, L.enum(TX, _m, _i)), _w)),
                                    patterns=[MultiPattern(sumw(_m, _w, _i), L.enum(TX, _m, _i))]))
# partial sums are not negative and grow (by induction from lemma 'a sum grows')
L.axiom('sumwmono', ['sumw'], ForAll([_m, _w, _i], And(sumw(_m, _w, _i) >= 0, Implies(_i <= L.card(TX, _m), sumw(_m, _w, _i) <= sumw(_m, _w, L.card(TX, _m)))), patterns=[sumw(_m, _w, _i)]))


def lemmas_lists():
    m, w, i = Const('lm', L.zs(TX)), Const('lw', WordS), Int('li')
    return [("a sum grows", [i >= 0, Const('le', L.enum(TX, m, i).sort()) == L.enum(TX, m, i), Int('ls') == sumw(m, w, i),
                             Int('lc') == count(L.mget(TX, m, L.enum(TX, m, i)), w)], sumw(m, w, i + 1) >= sumw(m, w, i))]


# all field names, in the order of enumeration, appended to a list
names = Function('names', L.zs(VW), L.zs(TX), L.zs(VW))
L.axiom('names', ['names'], ForAll([_v, _m], And(L.vlen(VW, names(_v, _m)) == L.vlen(VW, _v) + L.card(TX, _m)), patterns=[names(_v, _m)]))
L.axiom('namesat', ['names'], ForAll([_v, _m, _i], L.vat(VW, names(_v, _m), _i) == If(_i < L.vlen(VW, _v), L.vat(VW, _v, _i), L.enum(TX, _m, _i - L.vlen(VW, _v))),
                                    patterns=[L.vat(VW, names(_v, _m), _i)]))

# ---- tokens of a text for a set of separator bytes
SETB = ArraySort(I, BoolSort())
ntok, tb, te = Function('ntok', StrS, SETB, I), Function('tb', StrS, SETB, I, I), Function('te', StrS, SETB, I, I)
substr = Function('substr', StrS, I, I, StrS)
tokens = Function('tokens', StrS, SETB, L.zs(VW))
_S, _A, _k, _b, _e = Const('S', StrS), Const('A', SETB), Int('k'), Int('b'), Int('e')
sb, sl = L.sbyte, L.slen
L.axiom('ntok', ['ntok'], ForAll([_S, _A], And(ntok(_S, _A) >= 0, ntok(_S, _A) <= sl(_S)), patterns=[ntok(_S, _A)]))
for f in (tb, te):
    L.axiom('tok', [f.name()], ForAll([_S, _A, _i], Implies(And(0 <= _i, _i < ntok(_S, _A)), And(
        0 <= tb(_S, _A, _i), tb(_S, _A, _i) < te(_S, _A, _i), te(_S, _A, _i) <= sl(_S), Not(Select(_A, sb(_S, tb(_S, _A, _i)))),
        Implies(te(_S, _A, _i) < sl(_S), Select(_A, sb(_S, te(_S, _A, _i)))))), patterns=[f(_S, _A, _i)]))
    L.axiom('tokin', [f.name(), 'sbyte'], ForAll([_S, _A, _i, _k], Implies(And(0 <= _i, _i < ntok(_S, _A), tb(_S, _A, _i) <= _k, _k < te(_S, _A, _i)), Not(Select(_A, sb(_S, _k)))),
                                        patterns=[MultiPattern(f(_S, _A, _i), Select(_A, sb(_S, _k)))]))
# position k lies after the end of the tokens before the i-th and before the i-th: a separator
mark = Function('mark', I, BoolSort())      # holds of everything: keeps a term in the solver's sight
_mx = Int('mx')
L.axiom('mark', ['mark'], ForAll([_mx], mark(_mx), patterns=[mark(_mx)]))
prevend = lambda S, A, i: If(i <= 0, IntVal(0), te(S, A, i - 1))
L.axiom('tokgap', ['tb', 'sbyte'], ForAll([_S, _A, _i, _k], Implies(And(0 <= _i, _i <= ntok(_S, _A), prevend(_S, _A, _i) <= _k, _k < sl(_S), Implies(_i < ntok(_S, _A), _k < tb(_S, _A, _i))),
                                                                    Select(_A, sb(_S, _k))), patterns=[MultiPattern(tb(_S, _A, _i), Select(_A, sb(_S, _k)))]))
L.axiom('toklast', ['te'], ForAll([_S, _A, _i], Implies(And(0 <= _i, _i < ntok(_S, _A), te(_S, _A, _i) >= sl(_S)), _i + 1 == ntok(_S, _A)), patterns=[te(_S, _A, _i)]))
L.axiom('tokord', ['tb'], ForAll([_S, _A, _i], Implies(And(0 < _i, _i < ntok(_S, _A)), te(_S, _A, _i - 1) < tb(_S, _A, _i)), patterns=[tb(_S, _A, _i)]))
L.axiom('substr', ['substr'], ForAll([_S, _b, _e], Implies(And(0 <= _b, _b <= _e, _e <= sl(_S)), sl(substr(_S, _b, _e)) == _e - _b), patterns=[substr(_S, _b, _e)]))
L.axiom('substrat', ['substr', 'sbyte'], ForAll([_S, _b, _e, _i], Implies(And(0 <= _b, _b <= _e, _e <= sl(_S), 0 <= _i, _i < _e - _b), sb(substr(_S, _b, _e), _i) == sb(_S, _b + _i)),
                                               patterns=[sb(substr(_S, _b, _e), _i)]))
sdiff = Function('sdiff', StrS, StrS, I)
_T = Const('T', StrS)
_r, _o = Const('r', L.ROWI), Int('o')
cs_, ss_ = L.cstr(_r, _o), substr(_S, _b, _e)
L.axiom('strext', ['substr', 'cstr'], ForAll([_r, _o, _S, _b, _e], Or(cs_ == ss_, sl(cs_) != sl(ss_), And(0 <= sdiff(cs_, ss_), sdiff(cs_, ss_) < sl(cs_), sb(cs_, sdiff(cs_, ss_)) != sb(ss_, sdiff(cs_, ss_)))),
                                            patterns=[MultiPattern(cs_, ss_)]))
_cs = L.cstr(_r, _o)
L.axiom('cstrread', ['cstr', 'tb'], ForAll([_r, _o, _k], Implies(And(_o <= _k, _k < _o + sl(_cs)), sb(_cs, _k - _o) == L.m8(Select(_r, _k))), patterns=[MultiPattern(_cs, Select(_r, _k))]))
tokw = lambda S, A, i: L.textword(substr(S, tb(S, A, i), te(S, A, i)))
L.axiom('tokens', ['tokens'], ForAll([_S, _A], L.vlen(VW, tokens(_S, _A)) == ntok(_S, _A), patterns=[tokens(_S, _A)]))
L.axiom('tokensat', ['tokens'], ForAll([_S, _A, _i], Implies(And(0 <= _i, _i < ntok(_S, _A)), L.vat(VW, tokens(_S, _A), _i) == tokw(_S, _A, _i)), patterns=[L.vat(VW, tokens(_S, _A), _i)]))
badtext = lambda S: Or(L.noconv, Not(L.utf8ok(S)), Not(And(L.nowhite(L.textword(S)), L.pairedw(L.textword(S)))))
# some token is not a word: firstbad is the number of the first such token (ntok when there is none)
anybad = Function('anybad', StrS, SETB, BoolSort())
fbad = Function('fbad', StrS, SETB, I)
_tt = substr(_S, tb(_S, _A, _i), te(_S, _A, _i))
L.axiom('anybad', ['anybad'], ForAll([_S, _A], Implies(anybad(_S, _A), And(0 <= fbad(_S, _A), fbad(_S, _A) < ntok(_S, _A),
                                                                       badtext(substr(_S, tb(_S, _A, fbad(_S, _A)), te(_S, _A, fbad(_S, _A)))))), patterns=[anybad(_S, _A)]))
L.axiom('anybad2', ['anybad'], ForAll([_S, _A, _i], Implies(And(0 <= _i, _i < ntok(_S, _A), badtext(_tt)), anybad(_S, _A)), patterns=[MultiPattern(anybad(_S, _A), tb(_S, _A, _i))]))
whiteset = Const('whiteset', SETB)
L.axiom('whiteset', ['whiteset'], ForAll([_k], Select(whiteset, _k) == L.white(_k), patterns=[Select(whiteset, _k)]))
inlist = Function('inlist', L.ROWI, I, I, I, BoolSort())
_n, _c = Int('n'), Int('c')
# a position of letter c among the first n, when there is one
inpos = Function('inpos', L.ROWI, I, I, I, I)
L.axiom('inlist', ['inlist'], ForAll([_r, _o, _n, _c], Implies(inlist(_r, _o, _n, _c), And(0 <= inpos(_r, _o, _n, _c), inpos(_r, _o, _n, _c) < _n,
                                                                                      Select(_r, _o + 2 * inpos(_r, _o, _n, _c)) == _c)), patterns=[inlist(_r, _o, _n, _c)]))
L.axiom('inlist2', ['inlist'], ForAll([_r, _o, _n, _c, _k], Implies(And(_o <= _k, _k < _o + 2 * _n, (_k - _o) % 2 == 0, Select(_r, _k) == _c), inlist(_r, _o, _n, _c)),
                                     patterns=[MultiPattern(inlist(_r, _o, _n, _c), Select(_r, _k))]))
letterof = lambda b: If(b < 128, b, b + 0xff00)


def member(spec, l, chars, n):
    """letter l is one of the n letters at chars"""
    X, st = spec.X, spec.st
    if isinstance(chars, PG):
        return Or(*[l == X.gload(st, 'i16', PG(chars.name, zadd(chars.off, 2 * k))).u for k in range(n.cval())]) if n.isconst() and n.cval() else BoolVal(False)
    spec.requires("the letters exist", Or(n.s <= 0, And(chars.obj != 0, Select(st.g['alive'], chars.obj), chars.off >= 0, chars.off + 2 * n.s <= L.osize(chars.obj))))
    return inlist(X.row(st, 'i16', chars.obj), chars.off, n.s, l)


def sepset(spec, chars, n):
    X, st = spec.X, spec.st
    if isinstance(chars, PG):
        vals = sorted(X.gload(st, 'i16', PG(chars.name, zadd(chars.off, 2 * k))).cval() for k in range(n.cval()))
        if vals == [9, 10, 13, 32]:
            return whiteset
    A = fresh('sepset', SETB)
    k = Int('k')
    st.assume(ForAll([k], Implies(And(k >= 0, k < 256), Select(A, k) == member(spec, letterof(k), chars, n)), patterns=[Select(A, k)]))
    return A


def split_hints(lc):
    X = lc.X
    g = X.spec.ghost.get('split')
    if g is None:
        return []
    S, A, listp, t = g
    out = []
    ints = lc.ints(32)
    lv = lambda s: s.load('WordList', listp(s)) if callable(listp) else s.load('WordList', listp)
    n = lambda s: L.vlen(VW, lv(s))
    i = fresh('hi', I)
    out.append(("the words so far", lambda s: And(n(s) <= ntok(S, A), ForAll([i], Implies(And(0 <= i, i < n(s)), L.vat(VW, lv(s), i) == tokw(S, A, i)), patterns=[L.vat(VW, lv(s), i)]))))
    out.append(("no bad word so far", lambda s: ForAll([i], Implies(And(0 <= i, i < n(s)), Not(badtext(substr(S, tb(S, A, i), te(S, A, i))))), patterns=[tb(S, A, i)])))
    for x in ints:
        out.append(("%s at a token end" % x, lambda s, x=x: And(num(s.v(x)) == prevend(S, A, n(s)), mark(tb(S, A, n(s))))))
        out.append(("%s inside the text" % x, lambda s, x=x: num(s.v(x)) <= sl(S)))
        out.append(("%s between tokens" % x, lambda s, x=x: And(prevend(S, A, n(s)) <= num(s.v(x)), n(s) <= ntok(S, A), Or(n(s) == ntok(S, A), num(s.v(x)) <= tb(S, A, n(s))), mark(tb(S, A, n(s))))))
        out.append(("%s in the token" % x, lambda s, x=x: And(n(s) < ntok(S, A), mark(tb(S, A, n(s))), tb(S, A, n(s)) < num(s.v(x)), num(s.v(x)) <= te(S, A, n(s)))))
    for q in lc.ptrs(PB):
        for x in ints:
            out.append(("%s has %s bytes" % (q, x), lambda s, q=q, x=x: Or(And(s.v(q).obj == 0, num(s.v(x)) == 0), And(s.v(q).obj >= X.next0, Select(s.st.g['alive'], s.v(q).obj), s.v(q).off == 0, L.akind(s.v(q).obj) == 2, L.osize(s.v(q).obj) == num(s.v(x))))))
    return out


def inlist_hints(lc):
    g = lc.X.spec.ghost.get('member')
    if g is None:
        return []
    row, off, l = g
    i = fresh('hi', I)
    return [("not found before %s" % x, lambda s, x=x: ForAll([i], Implies(And(off <= i, i < off + 2 * num(s.v(x)), (i - off) % 2 == 0), Select(row, i) != l), patterns=[Select(row, i)])) for x in lc.ints(32)]


def count_hints(lc):
    out = []
    for top, f in lc.X.spec.ghost.get('counts', []):
        for a in lc.ints(32):
            if top is not None:
                out.append(("%s within the list" % a, lambda s, a=a, top=top: num(s.v(a)) <= top))
            for b in lc.ints(32):
                if a != b:
                    out.append(("%s counts to %s" % (a, b), lambda s, a=a, b=b, f=f: num(s.v(a)) == f(num(s.v(b)))))
    for f in lc.X.spec.ghost.get('itcounts', []):
        for a in lc.ints(32):
            for r in iters(lc):
                out.append(("%s counts to iterator %s" % (a, r[0]), lambda s, a=a, r=r, f=f: num(s.v(a)) == f(r[1](s))))
    for f in lc.X.spec.ghost.get('itlists', []):
        for r in iters(lc):
            out.append(("list up to iterator %s" % (r[0],), lambda s, r=r, f=f: f(s, r[1](s))))
    return out


def iters(lc):
    """iterators held in local cells or loop variables: (name, state -> rank)"""
    out = [(x, lambda s, x=x: s.v(x).rank) for x in lc.ptrs(IT)]
    for (i, o), (srt, v) in lc.st.cells.items():
        if isinstance(v, IT):
            out.append(("cell%d_%d" % (i, o), lambda s, i=i, o=o: s.st.cells[(i, o)][1].rank))
    return out


def iter_range(lc):
    X = lc.X
    out = []
    for (i, o), (srt, v) in lc.st.cells.items():
        if isinstance(v, IT):
            out.append(("cell%d_%d in range" % (i, o), lambda s, i=i, o=o: (lambda v: And(v.rank >= 0, v.rank <= L.card(v.cs, s.load(v.cs, v.cont))))(s.st.cells[(i, o)][1])))
    return out


def install(lib):
    C = lib.contracts
    lib.defaults['WordList'] = lambda: L.vempty(VW)
    lib.reps['WordList'] = pimpl('WordList', [(VW, 0)], 24, lambda X, st, o: at(X, st, VW, o, 0))
    lib.reps['Document'] = pimpl('Document', [('i64', 0), (TX, 8)], 56, lambda X, st, o: L.rmk(DOC, [at(X, st, 'i64', o, 0), at(X, st, TX, o, 8)]))
    lib.reps['Corpus'] = pimpl('Corpus', [(VD, 0)], 24, lambda X, st, o: at(X, st, VD, o, 0))

    def con(*names):
        def d(f):
            def g(spec, *a):
                if spec.mode == 'def':
                    spec.hints += [count_hints, iter_range, split_hints, inlist_hints]
                f(spec, *a)
            for n in names:
                C[N + n] = g
            return f
        return d

    # ---------------------------------------------------------------- WordList
    @con('WordList::WordList()')
    def c(spec, this):
        spec.set('WordList', this, L.vempty(VW))

    @con('WordList::WordList(Columbus::WordList const&)')
    def c(spec, this, l):
        spec.set('WordList', this, spec.get('WordList', l))

    @con('WordList::WordList(Columbus::WordList&&)')
    def c(spec, this, l):
        spec.set('WordList', this, spec.get('WordList', l))
        spec.moved('WordList', l)

    @con('WordList::~WordList()')
    def c(spec, this):
        spec.get_any('WordList', this)
        spec.destroy('WordList', this)

    @con('WordList::size() const')
    def c(spec, this):
        spec.returns(L.vlen(VW, spec.get('WordList', this)))

    @con('WordList::operator[](unsigned long) const')
    def c(spec, this, i):
        v = spec.get('WordList', this)
        spec.throws('std::out_of_range', i.u >= L.vlen(VW, v))
        spec.returns_ref('Word', L.vat(VW, v, i.u))

    @con('WordList::addWord(Columbus::Word const&)')
    def c(spec, this, w):
        spec.set('WordList', this, L.vpush(VW, spec.get('WordList', this), spec.get('Word', w)))

    @con('WordList::operator=(Columbus::WordList const&)')
    def c(spec, this, l):
        spec.get('WordList', this)
        spec.set('WordList', this, spec.get('WordList', l))
        spec.returns(this)

    @con('WordList::operator=(Columbus::WordList&&)')
    def c(spec, this, l):
        spec.get_any('WordList', this)
        spec.requires("a list is not moved into itself", Not(spec.X.ptr_eq(spec.st, this, l)))
        spec.set('WordList', this, spec.get('WordList', l))
        spec.moved('WordList', l)
        spec.returns(this)

    for op, neg in (('==', False), ('!=', True)):
        @con('WordList::operator%s(Columbus::WordList const&) const' % op)
        def c(spec, this, l, neg=neg):
            e = L.eqv(VW, spec.get('WordList', this), spec.get('WordList', l))
            if spec.mode == 'def':
                spec.ensures("the result is equality of the lists", lambda new, ret: (ret.b == e) if not neg else (ret.b == Not(e)))
            else:
                b = fresh('eq', BoolSort())
                spec.st.assume(b == e)
                spec.returns(Not(b) if neg else b)

    # ---------------------------------------------------------------- splitting
    @con('isInList(LetterT<unsigned short>, LetterT<unsigned short> const*, int)')
    def c(spec, l, chars, n):
        X = spec.X
        if spec.mode == 'def':
            spec.ghost['member'] = (X.row(spec.st, 'i16', chars.obj), chars.off, l.u)
        spec.returns(member(spec, l.u, chars, n))

    def splitting(spec, out, t, A, mem=None):
        S = cstrarg(spec, t)
        if spec.mode == 'def' and mem is not None:
            k = Int('k')
            spec.st.assume(ForAll([k], Implies(And(k >= 0, k < sl(S)), Select(A, sb(S, k)) == mem(letterof(sb(S, k)))), patterns=[sb(S, k)]))
        if spec.mode == 'def' and isinstance(t, PB):
            spec.limits.append((t.obj, t.off, t.off + L.slen(S) + 1))
            spec.ghost['split'] = (S, A, out, t)
        bad = anybad(S, A)
        spec.may_throw('std::runtime_error', bad)
        spec.may_throw('std::invalid_argument', bad)
        spec.normcond = Not(bad)
        spec.set('WordList', out, tokens(S, A))

    @con('split(char const*, LetterT<unsigned short> const*, int)')
    def c(spec, out, t, chars, n):
        A = sepset(spec, chars, n)
        splitting(spec, out, t, A, lambda l: member(spec, l, chars, n))

    @con('splitToWords(char const*)')
    def c(spec, out, t):
        splitting(spec, out, t, whiteset)

    # ---------------------------------------------------------------- Document
    did, dtx = (lambda d: L.rget(DOC, d, 0)), (lambda d: L.rget(DOC, d, 8))
    doc = lambda i, t: L.rmk(DOC, [i, t])

    @con('Document::Document(unsigned long)')
    def c(spec, this, i):
        spec.set('Document', this, doc(i.u, L.mempty(TX)))

    @con('Document::Document(Columbus::Document const&)')
    def c(spec, this, d):
        spec.set('Document', this, spec.get('Document', d))

    @con('Document::~Document()')
    def c(spec, this):
        spec.get('Document', this)
        spec.destroy('Document', this)

    @con('Document::operator=(Columbus::Document const&)')
    def c(spec, this, d):
        spec.get('Document', this)
        spec.set('Document', this, spec.get('Document', d))
        spec.returns(this)

    @con('Document::addText(Columbus::Word const&, Columbus::WordList const&)')
    def c(spec, this, f, l):
        d = spec.get('Document', this)
        spec.set('Document', this, doc(did(d), L.mput(TX, dtx(d), spec.get('Word', f), spec.get('WordList', l))))

    def addtext(spec, this, f, S):
        d = spec.get('Document', this)
        bad = anybad(S, whiteset)
        spec.may_throw('std::runtime_error', bad)
        spec.may_throw('std::invalid_argument', bad)
        spec.normcond = Not(bad)
        spec.set('Document', this, doc(did(d), L.mput(TX, dtx(d), spec.get('Word', f), tokens(S, whiteset))))

    @con('Document::addText(Columbus::Word const&, char const*)')
    def c(spec, this, f, t):
        addtext(spec, this, f, cstrarg(spec, t))

    @con('Document::addText(Columbus::Word const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)')
    def c(spec, this, f, t):
        addtext(spec, this, f, spec.get('str', t))

    @con('Document::getText(Columbus::Word const&) const')
    def c(spec, this, f):
        d, w = spec.get('Document', this), spec.get('Word', f)
        spec.throws('std::invalid_argument', Not(L.mhas(TX, dtx(d), w)))
        spec.returns_ref('WordList', L.mget(TX, dtx(d), w))

    @con('Document::fieldCount() const')
    def c(spec, this):
        spec.returns(L.card(TX, dtx(spec.get('Document', this))))

    @con('Document::getID() const')
    def c(spec, this):
        spec.returns(did(spec.get('Document', this)))

    @con('Document::getFieldNames(Columbus::WordList&) const')
    def c(spec, this, l):
        d, v = spec.get('Document', this), spec.get('WordList', l)
        spec.set('WordList', l, names(v, dtx(d)))
        if spec.mode == 'def':
            i = fresh('hi', I)

            def sofar(s, k):
                w = s.load('WordList', l)
                return And(L.vlen(VW, w) == L.vlen(VW, v) + k, ForAll([i], Implies(And(0 <= i, i < L.vlen(VW, w)), L.vat(VW, w, i) == L.vat(VW, names(v, dtx(d)), i)), patterns=[L.vat(VW, w, i)]))
            spec.ghost['itlists'] = [sofar]

    @con('Document::wordCount(Columbus::Word const&, Columbus::Word) const')
    def c(spec, this, w, f):
        d, x, y = spec.get('Document', this), spec.get('Word', w), spec.get('Word', f)
        v = L.mget(TX, dtx(d), y)
        spec.ghost['counts'] = [(L.vlen(VW, v), lambda n: cntw(v, x, n))]
        spec.returns(If(L.mhas(TX, dtx(d), y), count(v, x), IntVal(0)))

    @con('Document::totalWordCount(Columbus::Word const&) const')
    def c(spec, this, w):
        d, x = spec.get('Document', this), spec.get('Word', w)
        m = dtx(d)
        spec.ghost['itcounts'] = [lambda n: sumw(m, x, n)]
        spec.requires("the total is representable", sumw(m, x, L.card(TX, m)) < 2**62)
        spec.returns(sumw(m, x, L.card(TX, m)))

    # ---------------------------------------------------------------- Corpus
    @con('Corpus::Corpus()')
    def c(spec, this):
        spec.set('Corpus', this, L.vempty(VD))

    @con('Corpus::~Corpus()')
    def c(spec, this):
        spec.get('Corpus', this)
        spec.destroy('Corpus', this)

    @con('Corpus::addDocument(Columbus::Document const&)')
    def c(spec, this, d):
        spec.set('Corpus', this, L.vpush(VD, spec.get('Corpus', this), spec.get('Document', d)))

    @con('Corpus::size() const')
    def c(spec, this):
        spec.returns(L.vlen(VD, spec.get('Corpus', this)))

    @con('Corpus::getDocument(unsigned long) const')
    def c(spec, this, i):
        v = spec.get('Corpus', this)
        spec.throws('std::out_of_range', i.u >= L.vlen(VD, v))
        spec.returns_ref('Document', L.vat(VD, v, i.u))
