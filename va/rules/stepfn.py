"""Step functions (P26)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last
from ..model import *
from ..model import V
from .solver import is_call
from .constraints import Lex, check_lexer, field_of, unv, flat, merged, Parse, new_cls
from .config import opt, str_of

SF, SFP, SFL, SFT = (V + 'StepFunction' + x for x in ('', 'Parser', 'Lexer', 'Token'))
MEANING = {'ADDITION': '+', 'MULTIPLICATION': '*', 'EXPONENTIATION': '^'}


def fields(ck):
    fs = ck.fx.recs.get(SF, {}).get('fields', ())
    op = [f['q'] for f in fs if 'Operation' in f['t']]
    vs = [f['q'] for f in fs if 'variant' in f['t']]
    if len(op) != 1 or len(vs) != 2:
        raise Undecided('members of a step function')
    # operands in the order of the constructor
    for fn in ck.fns(SF + '::StepFunction'):
        if len(fn['params']) == 3:
            a, o, b = [('param', i, q['n']) for i, q in enumerate(fn['params'])]
            for p in ck.paths(fn, join=False):
                init = {e.q: unv(e.args[0]) for e in p.events if e.kind == 'init' and e.args}
                l = [q for q in vs if init.get(q) == a]
                r = [q for q in vs if init.get(q) == b]
                if len(l) == 1 and len(r) == 1 and l != r:
                    return op[0], l[0], r[0], init
    raise Undecided('constructor of a step function')


def unconv(t):
    while t[0] == 'conv':
        t = t[3]
    return t


def strip(t):
    t = unconv(t)
    if t[0] == 'op' and len(t) == 4:
        return (t[1], strip(t[2]), strip(t[3]))
    if is_call(t, 'pow') and len(t[3]) == 2:
        return ('^', strip(t[3][0]), strip(t[3][1]))
    return t


def case(p, opf, L, R):
    """(operation, side of the constant) of a path"""
    ops = [last(x[1]) for a, v in p.facts.items() if v and a[0] == 'eq' and
           ('fld', THIS, opf) in a[1:] for x in a[1:] if x[0] == 'enum']
    if not ops:
        no = {last(x[1]) for a, v in p.facts.items() if not v and a[0] == 'eq' and
              ('fld', THIS, opf) in a[1:] for x in a[1:] if x[0] == 'enum'}
        rest = set(MEANING) - no
        ops = list(rest) if len(rest) == 1 else []
    sides = {'L': None, 'R': None}
    for a, v in p.facts.items():
        if a[0] != 'holds' or a[2] not in (L, R):
            continue
        num = v == ('double' in a[1] or 'float' in a[1])
        sides['L' if a[2] == L else 'R'] = num
    return (ops[0] if len(ops) == 1 else None), sides


def feasible(s):
    """constant side(s) still possible; a step function has exactly one"""
    out = []
    if s['L'] is not False and s['R'] is not True:
        out.append('L')
    if s['R'] is not False and s['L'] is not True:
        out.append('R')
    return out


@rule('P26', 'evaluation', 'Evaluating a step function applies its operation to the '
      'value and the constant in the order of the operands.')
def evaluation(ck):
    opf, lf, rf, _ = fields(ck)
    L, R = ('fld', THIS, lf), ('fld', THIS, rf)
    done = set()
    for name in ('next', 'operator()'):
        for fn in ck.fns(SF + '::' + name):
            X = ('param', 0, fn['params'][0]['n'])
            for p in ck.paths(fn, join=False):
                if p.kind != 'ret':
                    continue
                op, s = case(p, opf, L, R)
                fs = feasible(s)
                if not fs:
                    continue
                if op is None or len(fs) != 1:
                    ck.undec(name, 'case not decided')
                    continue
                c = L if fs == ['L'] else R
                t = strip(p.ret)
                site = '%s: %s with the constant %s' % (
                    name, op.lower(), 'first' if c == L else 'second')
                done.add((op, fs[0]))
                if len(t) != 3 or not isinstance(t[1], tuple):
                    ck.undec(site, show(p.ret)[:100])
                    continue
                isc = lambda x: x[0] == 'get' and x[2] == c
                a, b = t[1], t[2]
                lossy = mentions(p.ret, lambda x: x[0] == 'conv' and
                                 x[1] == 'FloatingToIntegral' and x != p.ret or
                                 x[0] == 'conv' and x[1] == 'FloatingCast' and
                                 x[2] == 'float' and x != p.ret)
                order = a == X and isc(b) if c == R else isc(a) and b == X
                if op != 'EXPONENTIATION':
                    order = order or a == X and isc(b) or isc(a) and b == X
                ck.req(t[0] == MEANING[op], site, 'computes %s' % show(p.ret)[:120], fn)
                ck.req(order, site + ': operands', 'computes %s' % show(p.ret)[:120], fn)
                ck.req(not lossy, site + ': precision', 'an operand is rounded: %s' %
                       show(p.ret)[:120], fn)
    ck.need(len(done) == 6, 'combinations of operation and operands')


@rule('P26', 'constructors', 'The short constructors put the constant where the operation '
      'expects it and a name on the other side.')
def constructors(ck):
    opf, lf, rf, _ = fields(ck)
    for fn in ck.fns(SF + '::StepFunction'):
        ps = fn['params']
        if len(ps) != 2:
            continue
        num = [i for i, q in enumerate(ps) if q['t'] in ('double', 'float')]
        if len(num) != 1:
            continue
        i = num[0]
        want = ('param', i, ps[i]['n']), ('param', 1 - i, ps[1 - i]['n'])
        for p in ck.paths(fn, join=False):
            init = {e.q: unv(e.args[0]) for e in p.events if e.kind == 'init' and e.args}
            if not {opf, lf, rf} <= set(init):
                ck.undec('constructor', 'members not recognised')
                continue
            mine, other = (lf, rf) if i == 0 else (rf, lf)
            site = 'constant as %s operand' % ('first' if i == 0 else 'second')
            ck.req(init[mine] == want[0], site, 'is %s' % show(init[mine])[:80], fn)
            ck.req(init[opf] == want[1], site, 'the operation is %s' % show(init[opf])[:80], fn)
            ck.req(init[other][0] == 'str', site, 'the other operand is %s' %
                   show(init[other])[:80], fn)


@rule('P26', 'text', 'The text of a step function consists of its operands in order '
      'around the symbol of its operation, numbers with all of their digits.')
def text(ck):
    opf, lf, rf, _ = fields(ck)
    L, R = ('fld', THIS, lf), ('fld', THIS, rf)
    done = set()
    for fn in ck.fns(SF + '::toString'):
        if fn['params']:
            continue
        for p in ck.paths(fn, join=False):
            if p.kind != 'ret':
                continue
            op, s = case(p, opf, L, R)
            fs = feasible(s)
            if not fs:
                continue
            if op is None or len(fs) != 1:
                ck.undec('text', 'case not decided')
                continue
            c = L if fs == ['L'] else R
            site = 'text of %s with the constant %s' % (
                op.lower(), 'first' if c == L else 'second')
            parts = merged(flat(p.ret))
            gone = [d for x, d in ((L, 'first'), (R, 'second'))
                    if not mentions(p.ret, lambda y: y == x)]
            if gone and any(isinstance(y, str) for y in parts):
                done.add((op, fs[0]))
                ck.bad(site, 'the %s operand is missing' % ' and '.join(gone), fn)
                continue
            if len(parts) != 3 or not isinstance(parts[1], str) or \
                    isinstance(parts[0], str) or isinstance(parts[2], str):
                ck.undec(site, show(p.ret)[:120])
                continue
            done.add((op, fs[0]))
            ck.req(parts[1].strip() == MEANING[op], site, 'has the symbol %r' %
                   parts[1], fn)
            for x, v, side in ((parts[0], L, 'first'), (parts[2], R, 'second')):
                ref = [y[2] for y in walk(x) if y and y[0] == 'get']
                ck.req(ref and all(y == v for y in ref), site, 'the %s operand is %s' %
                       (side, show(x)[:120]), fn)
                if v == c:
                    tc = [y for y in walk(x) if is_call(y, 'to_chars')]
                    if tc:
                        pr = tc[0][3]
                        ck.req(len(pr) < 4 or len(pr) == 4 and last(pr[3][1]) == 'fixed',
                               'digits of constants', 'are printed as %s' % show(x)[:120], fn)
                        ck.req(any(y[0] == 'fld' and last(y[2]) == 'ptr' and y[1] == tc[0]
                                   for y in walk(x) if y), 'digits of constants',
                               'are cut off: %s' % show(x)[:120], fn)
                    elif mentions(x, lambda y: is_call(y, 'to_string')) or x[0] == 'get':
                        ck.bad('digits of constants', 'are rounded: %s' % show(x)[:120], fn)
                    else:
                        ck.undec('digits of constants', show(x)[:120])
                else:
                    ck.req(str_of(x)[0] == 'get', site, 'the name is %s' % show(x)[:80], fn)
    ck.need(len(done) == 6, 'combinations of operation and operands')


_SL = {}


def lexer(ck):
    if id(ck.fx) not in _SL:
        _SL[id(ck.fx)] = Lex(ck, SFL, SFT)
    return _SL[id(ck.fx)]


@rule('P26', 'lexer', 'Every step of the lexer consumes at least one and only '
      'characters it has recognised; names, numbers and operators become tokens of '
      'their own with exactly their text; unknown characters are errors.')
def lex(ck):
    L = lexer(ck)
    check_lexer(ck, L, '$%@#?:;,[]{}`"\\!&|()=<>-/~', ' +*^()=', '.')
    ks = {}
    for s in '+*^':
        k = {c for c, l in L.kind(s)}
        ck.req(len(k) == 1 and not k & {'ERROR', 'END_OF_FILE', 'WHITESPACE', 'NUMBER',
                                        'IDENTIFIER'}, 'symbol %s' % s, 'is read as %s' % k, L.fn)
        for x in k:
            ks.setdefault(x, set()).add(s)
    for k, ss in ks.items():
        ck.req(len(ss) == 1, 'token %s' % k, 'stands for %s' % ' and '.join(sorted(ss)), L.fn)


class SParse(Parse):
    def __init__(self, ck):
        self.ck = ck
        self.fn = ck.fn(SFP + '::buildStepFunction')
        self.q = None
        self.en = Engine(ck.fx, join=False, mark_loops=True, max_paths=20000,
                         outs={'getAsDouble': [0]})
        self.paths = ck.paths(self.fn, eng=self.en)
        self.kindf = field_of(ck, SFT + '::getKind')
        self.valf = field_of(ck, SFT + '::getValue')
        tl = {t[1] for p in self.paths for a in p.facts for t in walk(a)
              if t and t[0] == 'front' and t[1][0] == 'fld'}
        if len(tl) != 1:
            raise Undecided('token list of the parser')
        self.tokens = tl.pop()


@rule('P26', 'parser', 'A step function is built exactly for an operand, an operator '
      'and an operand up to the end of the text, one of them a number; the parts '
      'keep their order and value.')
def parse(ck):
    P = SParse(ck)
    L = lexer(ck)
    sym = {}
    for s in '+*^':
        for k, l in L.kind(s):
            sym[k] = s
    allk = {x['n'] for x in ck.fx.enums[SFT + '::TokenKind']['vals']}
    OPD = {'IDENTIFIER', 'NUMBER'}
    built = set()
    ws = set()
    for p in P.paths:
        if p.kind != 'ret':
            continue
        ks = P.kinds(p)
        w = P.walk(p)

        def kind(i):
            k, ex = ks.get(i, [None, set()])
            return {k} if k else allk - ex
        # consumption
        for n, v, e in w:
            if n == 'pop':
                ck.req(not kind(v) & {'END_OF_FILE', 'ERROR'}, 'consumed token %s' %
                       '/'.join(sorted(kind(v))) if len(kind(v)) < 3 else 'consumed token',
                       'the parser reads beyond the end', P.fn)
            if n == 'iter':
                ck.req(any(x[0] == 'pop' and x[1] < v for x in w), 'iteration consumes',
                       'an iteration does not consume a token', P.fn)
                last_pop = [x[1] for x in w if x[0] == 'pop' and x[1] < v]
                ck.req(not last_pop or kind(last_pop[-1]) == {'WHITESPACE'}, 'skipped tokens',
                       'a token that may be %s is skipped' % sorted(
                           kind(last_pop[-1]) - {'WHITESPACE'})[:1] if last_pop else '', P.fn)
                ws.add(len([x for x in w if x[0] == 'pop' and x[1] < v and
                            kind(x[1]) != {'WHITESPACE'}]))
        iterated = any(n == 'iter' for n, v, e in w)
        pops = [v for n, v, e in w if n == 'pop']
        num = {v: r for a, r in p.facts.items() if a[0] == 'nn' and is_call(a[1], 'getAsDouble')
               for t in walk(a) if t and t[0] == 'front'
               for v in [P.version(t)] if v is not None}
        hold = {}
        for a, r in p.facts.items():
            if a[0] == 'holds':
                for t in walk(a[2]):
                    if t and t[0] == 'front' and P.version(t) is not None:
                        hold.setdefault(P.version(t), set()).add(
                            'NUMBER' if r == ('double' in a[1]) else 'IDENTIFIER')
        blank = {v for v in pops if kind(v) == {'WHITESPACE'}}
        if iterated and p.ret == NULL:
            continue
        pos = [v for v in range(12) if v not in blank][:4]
        if any(v > pos[3] for v in list(ks) + pops):
            ck.undec('accepted texts', 'more than four tokens are read')
            continue
        k0, k1, k2, k3 = (kind(i) for i in pos)
        # alternatives of the operands contradict their kinds
        if any(len(h) > 1 or not h & kind(v) for v, h in hold.items()):
            continue
        for v, h in hold.items():
            if v == pos[0]:
                k0 = k0 & h
            elif v == pos[2]:
                k2 = k2 & h
        if p.ret != NULL:
            t = p.ret
            if t[0] != 'new' or t[1] != SF:
                ck.undec('accepted texts', 'result %s' % show(t)[:80])
                continue
            bad = None
            if not k0 <= OPD:
                bad = 'the first operand may be %s' % sorted(k0 - OPD)[0]
            elif not k1 <= set(sym):
                bad = 'the operator may be %s' % sorted(k1 - set(sym))[0]
            elif not k2 <= OPD:
                bad = 'the second operand may be %s' % sorted(k2 - OPD)[0]
            elif k3 != {'END_OF_FILE'}:
                bad = 'further text is ignored'
            elif len(k0) == 1 and k0 == k2:
                bad = 'both operands may be %s' % sorted(k0)[0]
            elif any(num.get(v) is not False for v, k in ((pos[0], k0), (pos[2], k2)) if k == {'NUMBER'}):
                bad = 'malformed numbers are used'
            ck.req(bad is None, 'accepted texts', bad or '', P.fn)
            if bad or len(t[2]) != 3 or len(k1) != 1:
                continue
            built.add((tuple(k0), tuple(k1), tuple(k2)))
            o = t[2][1]
            ck.req(o[0] == 'enum' and MEANING.get(last(o[1])) == sym[list(k1)[0]],
                   'operator %s' % sym[list(k1)[0]], 'is read as %s' % show(o)[:60], P.fn)
            for x, v, k in ((t[2][0], pos[0], k0), (t[2][2], pos[2], k2)):
                x = unv(opt(x))
                fr = {P.version(y) for y in walk(x) if y and y[0] == 'front'}
                ck.req(fr == {v}, 'order of operands', 'operand %d is %s' % (
                    1 if v == pos[0] else 2, show(x)[:100]), P.fn)
                if k == {'NUMBER'}:
                    ck.req(x[0] == 'out' and is_call(x[2], 'getAsDouble'),
                           'numbers', 'become %s' % show(x)[:100], P.fn)
                elif k == {'IDENTIFIER'}:
                    ck.req(not mentions(x, lambda y: is_call(y, 'getAsDouble', 'lower', 'upper')),
                           'names', 'become %s' % show(x)[:100], P.fn)
            continue
        why = not k0 & OPD or pos[1] in ks and not k1 & set(sym) or pos[2] in ks and not k2 & OPD or \
            pos[3] in ks and 'END_OF_FILE' not in k3 or any(r for r in num.values()) or \
            len(k0) == 1 and k0 == k2 or any(
                a[0] == 'empty' and r and mentions(a, lambda x: x == P.tokens)
                for a, r in p.facts.items())
        ck.req(why, 'well-formed texts are accepted', 'a text is rejected although its '
               'tokens are %s' % [sorted(x)[0] if len(x) == 1 else '?' for x in (k0, k1, k2, k3)],
               P.fn)
    for k in sym:
        for a, b in (('IDENTIFIER', 'NUMBER'), ('NUMBER', 'IDENTIFIER')):
            ck.req(((a,), (k,), (b,)) in built, 'texts like %s %s %s' % (
                a.lower(), sym[k], b.lower()), 'are never accepted', P.fn)
    ck.req(ws >= {0, 1, 2, 3}, 'blanks', 'are not skipped at %s' % sorted({0, 1, 2, 3} - ws), P.fn)
    ck.need(len(built) >= 6, 'accepted texts')
