"""Contracts of Word and of the text conversion helpers (C01-C04)."""
from z3 import *
import logic as L
import vc
from vc import *
import steps
from logic import fresh, I, ROWI

N = 'Columbus::'


def cstrarg(spec, p, what='text'):
    """a caller passes a terminated string in live memory"""
    X, st = spec.X, spec.st
    if isinstance(p, PB):
        r = L.nm(X.row(st, 'i8', p.obj))
        S = L.cstr(r, p.off)
        k = fresh('cb', I)
        st.assume(ForAll([k], And(Select(r, k) >= 0, Select(r, k) < 256), patterns=[Select(r, k)]))     # bytes
        spec.requires("%s is a terminated string" % what, And(p.obj != 0, Select(st.g['alive'], p.obj), p.off >= 0, L.ends(X.row(st, 'i8', p.obj), p.off),
                                                              p.off + L.slen(S) + 1 <= L.osize(p.obj)))
        return S
    return X.cstrof(st, p)


def word_rep():
    def view(X, st, p):
        t, n = X.load(st, 'ptr', p, False), X.load(st, 'i32', X.padd(st, p, 8), False)
        return L.mkw(L.nm(X.row(st, 'i16', t.obj)), L.nm(t.off), L.nm(n.u))

    def wf(X, st, p):
        t, n = X.load(st, 'ptr', p, False), X.load(st, 'i32', X.padd(st, p, 8), False)
        W = L.mkw(L.nm(X.row(st, 'i16', t.obj)), L.nm(t.off), L.nm(n.u))
        o = t.obj
        ad = X.addr(p)
        own = Select(st.g['owner'], o)
        return [("the length is below the assumed bound", n.u < 2**29), ("no text means no letters", Implies(o == 0, n.u == 0)),
                ("the text is memory of its own", Implies(o != 0, And(Select(st.g['alive'], o), t.off == 0, L.akind(o) == 2, L.okind(o) == 1,
                                                                    L.osize(o) >= 2 * n.u + 2))),
                ("the text has one owner", Implies(o != 0, own == L.PtrDT.mkptr(ad[0], ad[1]))),
                ("no whitespace", L.nowhite(W)), ("no NUL letter", L.nonul(W)), ("surrogates are paired", L.pairedw(W))]

    def owned(X, st, p):
        return [X.load(st, 'ptr', p, False).obj]
    return Rep('Word', [('ptr', 0), ('i32', 8)], view, wf, owned, eq=L.weq, rowsorts=('i16', 'i8'))


def views(lc, S):
    out = []
    X = lc.X
    rep = X.reps_active['Word']
    for p in X.wordptrs:
        try:
            out.append(rep.view(X, S.st, p))
        except VerifUnsupported:
            pass
    return out


def word_hints(lc):
    X = lc.X
    out = []
    ps = X.wordptrs
    rep = X.reps_active['Word']
    fl = [x.res for x in lc.phis if isinstance(lc.entry[x.res], IV) and lc.entry[x.res].w in (1, 8)]
    for a, p in enumerate(ps):
        V = lambda S, p=p: rep.view(X, S.st, p)
        for n in lc.ints(32):
            i = fresh('hi', I)

            def pre(S, f, n=n, V=V, i=i):
                W = V(S)
                return ForAll([i], Implies(And(0 <= i, i < num(S.v(n))), f(W, i, num(S.v(n)))), patterns=[L.wat(W, i)])
            out.append(("nowhite %d %s" % (a, n), lambda S, pre=pre: pre(S, lambda W, i, m: Not(L.white(L.wat(W, i))))))
            out.append(("nonul %d %s" % (a, n), lambda S, pre=pre: pre(S, lambda W, i, m: L.wat(W, i) != 0)))
            out.append(("paired %d %s" % (a, n), lambda S, pre=pre: pre(S, lambda W, i, m: L.paired(W, i, m))))
            for b in fl:
                for pos in (True, False):
                    out.append(("flag %s%s %d %s" % ('' if pos else '!', b, a, n), lambda S, b=b, pos=pos, n=n, V=V: (
                        (S.v(b).u != 0) if pos else (S.v(b).u == 0)) == And(num(S.v(n)) > 0, L.high(L.wat(V(S), num(S.v(n)) - 1)))))
            for c, q in enumerate(ps[:a]):
                out.append(("agree %d %d %s" % (a, c, n), lambda S, pre=pre, q=q: pre(S, lambda W, i, m: L.wat(W, i) == L.wat(rep.view(X, S.st, q), i))))
    for b in fl:
        out.append(("%s is a flag" % b, lambda S, b=b: S.v(b).u <= 1))
        for c in fl:
            if c != b:
                out.append(("%s = !%s" % (b, c), lambda S, b=b, c=c: (S.v(b).u == 0) == (S.v(c).u != 0)))
    return out


def low_hints(lc):
    """a buffer is lower-cased from the front"""
    X = lc.X
    S0 = X.spec.ghost.get('text')
    out = []
    if S0 is None:
        return out
    rows = [it[2] for it in X.loopinfo[lc.h].mod if it[0] == 'row' and it[1] == 'i16']
    for reg, v in list(lc.env.items()):
        if isinstance(v, PB) and any(v.obj.eq(o) for o in rows):
            o = v.obj
            i = fresh('hi', I)
            for n in lc.ints(32):
                def inv(S, o=o, n=n, i=i):
                    W = L.mkw(L.nm(X.row(S.st, 'i16', o)), IntVal(0), L.u16len(S0))
                    return ForAll([i], Implies(And(0 <= i, i < L.u16len(S0)), L.wat(W, i) == If(i < num(S.v(n)), L.low(L.u16at(S0, i)), L.u16at(S0, i))),
                                  patterns=[L.wat(W, i), L.u16at(S0, i)])
                out.append(("lower-cased %s %s" % (reg, n), inv))
    return out


def install(lib):
    lib.reps['Word'] = word_rep()
    C = lib.contracts

    def con(*names, **kw):
        def d(f):
            def g(spec, *a):
                X = spec.X
                if spec.mode == 'def':
                    X.wordptrs = []
                if 'Word' in X.reps_active and spec.mode == 'def':
                    spec.hints.append(word_hints)
                if spec.mode == 'def':
                    spec.hints.append(low_hints)
                f(spec, *a)
            for n in names:
                C[N + n] = g
            return f
        return d

    def W(spec, p):
        if spec.mode == 'def' and not any(same(p, q) for q in spec.X.wordptrs):
            spec.X.wordptrs.append(p)
        return spec.get('Word', p)

    def newW(spec, p, w):
        if spec.mode == 'def' and not any(same(p, q) for q in spec.X.wordptrs):
            spec.X.wordptrs.append(p)
        spec.set('Word', p, w)

    def textcases(spec, S, p, empty_on_fail=False):
        w = L.textword(S)
        bad = Or(L.noconv, Not(L.utf8ok(S)))
        c1 = spec.throws('std::runtime_error', bad)
        c2 = spec.throws('std::invalid_argument', And(Not(bad), Not(And(L.nowhite(w), L.pairedw(w)))))
        if empty_on_fail:
            # a refused assignment leaves a usable word
            for c in (c1, c2):
                c.set('Word', p, None)
        newW(spec, p, w)

    @con('Word::Word()')
    def c(spec, this):
        newW(spec, this, L.emptyw)

    @con('Word::Word(char const*)')
    def c(spec, this, t):
        textcases(spec, cstrarg(spec, t), this)

    @con('Word::Word(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)')
    def c(spec, this, s):
        textcases(spec, spec.get('str', s), this)

    @con('Word::Word(Columbus::Word const&)')
    def c(spec, this, w):
        newW(spec, this, W(spec, w))

    @con('Word::Word(Columbus::Word&&)')
    def c(spec, this, w):
        newW(spec, this, W(spec, w))
        spec.set('Word', w, L.emptyw)

    @con('Word::Word(LetterT<unsigned short>*, unsigned long)')
    def c(spec, this, t, n):
        X, st = spec.X, spec.st
        spec.requires("the letters exist", And(n.u < 2**29, Or(n.u == 0, And(t.obj != 0, Select(st.g['alive'], t.obj), t.off >= 0, t.off + 2 * n.u <= L.osize(t.obj)))))
        row = X.row(st, 'i16', t.obj)
        m = If(And(n.u > 0, Select(row, t.off + 2 * n.u - 2) == 0), n.u - 1, n.u)
        w = L.mkw(row, t.off, m)
        spec.throws('std::invalid_argument', Not(L.wordok(w)))
        newW(spec, this, w)

    @con('Word::~Word()')
    def c(spec, this):
        W(spec, this)
        spec.destroy('Word', this)

    @con('Word::operator=(Columbus::Word const&)')
    def c(spec, this, w):
        W(spec, this)
        spec.set('Word', this, W(spec, w))
        spec.returns(this)

    @con('Word::operator=(Columbus::Word&&)')
    def c(spec, this, w):
        W(spec, this)
        spec.requires("a word is not moved into itself", Not(spec.X.ptr_eq(spec.st, this, w)))
        spec.set('Word', this, W(spec, w))
        spec.set('Word', w, L.emptyw)
        spec.returns(this)

    @con('Word::operator=(char const*)')
    def c(spec, this, t):
        W(spec, this)
        S = cstrarg(spec, t)
        if isinstance(t, PB):
            # the text is the caller's, not the word's own memory
            spec.requires("the text is not inside the word", t.obj != this.obj)
            for o in spec.X.reps_active['Word'].owned(spec.X, spec.st, this) if 'Word' in spec.X.reps_active else []:
                spec.requires("the text is not the word's own memory", t.obj != o)
        textcases(spec, S, this, True)
        spec.returns(this)

    @con('Word::operator=(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)')
    def c(spec, this, s):
        W(spec, this)
        textcases(spec, spec.get('str', s), this, True)
        spec.returns(this)

    @con('Word::length() const')
    def c(spec, this):
        spec.returns(L.wlen(W(spec, this)))

    @con('Word::operator[](unsigned int) const')
    def c(spec, this, i):
        w = W(spec, this)
        spec.throws('std::out_of_range', i.u >= L.wlen(w))
        spec.returns(L.wat(w, i.u))

    @con('Word::operator==(Columbus::Word const&) const')
    def c(spec, this, w):
        a, b = W(spec, this), W(spec, w)
        spec.returns(And(a == b, L.lcp(a, b) >= 0))

    @con('Word::operator!=(Columbus::Word const&) const')
    def c(spec, this, w):
        a, b = W(spec, this), W(spec, w)
        spec.returns(a != b)

    @con('Word::operator<(Columbus::Word const&) const')
    def c(spec, this, w):
        spec.returns(L.wlt(W(spec, this), W(spec, w)))

    def eqtext(spec, this, S, neg):
        w = W(spec, this)
        spec.throws('std::runtime_error', L.noconv)
        e = L.utf8(w) == S
        spec.returns(Not(e) if neg else e)
    for op, neg in (('==', False), ('!=', True)):
        @con('Word::operator%s(char const*) const' % op)
        def c(spec, this, t, neg=neg):
            eqtext(spec, this, cstrarg(spec, t), neg)

        @con('Word::operator%s(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&) const' % op)
        def c(spec, this, s, neg=neg):
            eqtext(spec, this, spec.get('str', s), neg)

    @con('Word::toUtf8(char*, unsigned int) const')
    def c(spec, this, buf, n):
        w = W(spec, this)
        if 'Word' in spec.X.reps_active:
            for o in spec.X.reps_active['Word'].owned(spec.X, spec.st, this):
                spec.requires("the buffer is not the word's own memory", Or(o == 0, buf.obj != o))
        tobuf(spec, w, buf, n)

    def tobuf(spec, w, buf, n):
        X, st = spec.X, spec.st
        spec.requires("the buffer has the stated size", Or(n.u == 0, And(buf.obj != 0, Select(st.g['alive'], buf.obj), buf.off >= 0, buf.off + n.u <= L.osize(buf.obj))))
        S = L.utf8(w)
        bad = Or(L.noconv, Not(L.convertible(w)), L.slen(S) + 1 > n.u)
        c = spec.throws('std::runtime_error', bad)
        c.row(buf.obj)
        spec.row(buf.obj)
        old = X.row(st, 'i8', buf.obj)

        def outside(new, ret):
            k = fresh('k', I)
            r = L.nm(X.row(new.st, 'i8', buf.obj))
            return ForAll([k], Implies(Or(k < buf.off, k >= buf.off + n.u), Select(r, k) == Select(old, k)), patterns=[Select(r, k)])

        def written(new, ret):
            r = L.nm(X.row(new.st, 'i8', buf.obj))
            k = fresh('k', I)
            if spec.mode == 'call':
                return And(L.ends(r, buf.off), L.cstr(r, buf.off) == S, Select(r, buf.off + L.slen(S)) == 0,
                           ForAll([k], Implies(And(0 <= k, k < L.slen(S)), Select(r, buf.off + k) == L.sbyte(S, k)), patterns=[L.sbyte(S, k)]))
            return And(Select(r, buf.off + L.slen(S)) == 0,
                       ForAll([k], Implies(And(0 <= k, k < L.slen(S)), Select(r, buf.off + k) == L.sbyte(S, k)), patterns=[L.sbyte(S, k)]))
        c.ensures("nothing outside the buffer is written", outside)
        spec.ensures("nothing outside the buffer is written", outside)
        spec.ensures("the text and its terminator are written", written)

    @con('internalToUtf8(LetterT<unsigned short> const*, unsigned int, char*, unsigned int)')
    def c(spec, src, m, buf, n):
        X, st = spec.X, spec.st
        spec.requires("the letters exist", Or(m.u == 0, And(src.obj != 0, Select(st.g['alive'], src.obj), src.off >= 0, src.off + 2 * m.u <= L.osize(src.obj))))
        spec.requires("source and buffer differ", Or(src.obj != buf.obj, src.obj == 0))
        tobuf(spec, L.mkw(X.row(st, 'i16', src.obj), src.off, m.u), buf, n)

    @con('utf8ToInternal(char const*, unsigned int&)')
    def c(spec, t, n):
        X = spec.X
        S = cstrarg(spec, t)
        spec.ghost['text'] = S
        if isinstance(t, PB) and isinstance(n, PB):
            spec.requires("the size is not inside the text", n.obj != t.obj)
        if spec.mode == 'def':
            spec.requires("the size can be written", And(n.obj != 0, Select(spec.st.g['alive'], n.obj), n.off >= 0, n.off + 4 <= L.osize(n.obj)))
        spec.throws('std::runtime_error', Or(L.noconv, Not(L.utf8ok(S))))
        spec.set('i32', n, IV(32, u=L.u16len(S)))
        if spec.mode == 'call':
            spec.returns(lambda X, st: X.alloc(st, fresh('size', I), 2))
        spec.norm.owns.append(lambda new, ret: [ret.obj])

        def letters(new, ret):
            r = L.nm(X.row(new.st, 'i16', ret.obj))
            w = L.mkw(r, IntVal(0), L.u16len(S))
            return L.weq(w, L.textword(S)) if spec.mode == 'def' else w == L.textword(S)

        spec.ensures("letters are the lower-case letters of the text", letters)
        spec.ensures("terminated memory of its own", lambda new, ret: And(
            ret.obj != 0, Select(new.st.g['alive'], ret.obj), ret.off == 0, L.akind(ret.obj) == 2, L.okind(ret.obj) == 1,
            L.osize(ret.obj) >= 2 * L.u16len(S) + 2, ret.obj >= spec.next_before))

    @con('Word::asUtf8[abi:cxx11]() const')
    def c(spec, out, this):
        w = W(spec, this)
        spec.throws('std::runtime_error', L.noconv)
        spec.set('str', out, L.utf8(w))

    @con('Word::join(Columbus::Word const&) const')
    def c(spec, out, this, w):
        a, b = W(spec, this), W(spec, w)
        spec.requires("the joined length is representable", L.wlen(a) + L.wlen(b) < 2**29)
        newW(spec, out, L.wcat(a, b))

    @con('isWhitespace(LetterT<unsigned short>)')
    def c(spec, l):
        spec.returns(L.white(l.u))

    @con('Word::hash() const')
    def c(spec, this):
        w = W(spec, this)
        if spec.mode == 'def':
            # a deterministic function of what it reads: the length and the letters, nothing else
            X, st = spec.X, spec.st
            n = X.load(st, 'i32', X.padd(st, this, 8), False).u
            o = X.load(st, 'ptr', this, False).obj
            spec.reads((this.obj, this.off, this.off + 8), (this.obj, this.off + 8, this.off + 12), (o, IntVal(0), 2 * n))
        else:
            spec.returns(L.whash(w))
