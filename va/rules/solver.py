"""The Z3 solver: operators (P20), tree (P21), loading (P22), enumeration (P23)."""
import itertools
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .constraints import BIN, UN, CONS, classes, bases

SOL = 'vara::solver::'
Z3S = SOL + 'Z3Solver'
VIS = SOL + 'Z3SolverConstraintVisitor'
CFAC = SOL + 'ConfigurationFactory'
CITE = SOL + 'ConfigurationIterable'
STEPNEXT = V + 'StepFunction::next'


class Unknown(Exception):
    """a solver term whose meaning the analysis does not know"""


def is_call(t, *names):
    return isinstance(t, tuple) and t and t[0] == 'call' and last(t[1]) in names


def strip_conv(t):
    while True:
        if t[0] == 'call' and last(t[1]) == 'to_expr' and len(t[3]) == 2:
            t = t[3][1]
        elif t[0] == 'call' and last(t[1]).startswith('operator _Z3') and t[2]:
            t = t[2]
        elif t[0] == 'new' and last(t[1]) == 'expr' and t[2]:
            t = t[2][-1]
        elif t[0] in ('deref', 'conv') and isinstance(t[-1], tuple):
            t = t[-1]
        else:
            return t


OPS = {
    'operator&&': 'and', 'operator&': 'and', 'operator||': 'or', 'operator|': 'or',
    'operator!': 'not', 'operator==': 'eq', 'operator!=': 'ne', 'operator^': 'ne',
    'implies': 'imp', 'ite': 'ite', 'operator+': '+', 'operator-': '-',
    'operator*': '*', 'operator/': '/', 'operator<': '<', 'operator>': '>',
    'operator<=': '<=', 'operator>=': '>=', 'Z3_mk_ite': 'ite', 'Z3_mk_not': 'not',
    'Z3_mk_eq': 'eq', 'Z3_mk_iff': 'eq', 'Z3_mk_xor': 'ne', 'Z3_mk_implies': 'imp',
    'Z3_mk_lt': '<', 'Z3_mk_le': '<=', 'Z3_mk_gt': '>', 'Z3_mk_ge': '>=',
    'Z3_mk_div': '/', 'Z3_mk_unary_minus': '-', 'mod': 'mod', 'rem': 'rem',
    'operator%': 'mod', 'nand': 'nand', 'nor': 'nor', 'xnor': 'eq',
}


def evl(t, env):
    """value of a solver term; env maps atoms to values"""
    t = strip_conv(t)
    u = unk(t)
    if u in env:
        return env[u]
    if t[0] == 'call':
        n = last(t[1])
        a = t[3]
        if n.startswith('Z3_mk') and a and (
                is_call(strip_conv(a[0]), 'operator _Z3_context *') or
                a[0][0] == 'call' and '_Z3_context' in a[0][1] or
                a[0][0] == 'fld' and a[0][2].endswith('Context')):
            a = a[1:]
        op = OPS.get(n)
        if t[2] is not None and op and len(a) < 2 and n.startswith('operator'):
            a = (t[2],) + tuple(a)
        if op == 'ite' and len(a) == 3:
            return evl(a[1], env) if evl(a[0], env) else evl(a[2], env)
        if op == 'not' and len(a) == 1:
            return not evl(a[0], env)
        if op == '-' and len(a) == 1:
            return -evl(a[0], env)
        if op and len(a) == 2:
            x, y = evl(a[0], env), evl(a[1], env)
            if op == 'and':
                return bool(x) and bool(y)
            if op == 'or':
                return bool(x) or bool(y)
            if op == 'nand':
                return not (x and y)
            if op == 'nor':
                return not (x or y)
            if op == 'eq':
                return x == y
            if op == 'ne':
                return x != y
            if op == 'imp':
                return (not x) or bool(y)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op in ('/', 'mod', 'rem'):
                if y == 0:
                    return ('undef', op, x)
                q = x // y if y > 0 else -(x // -y)
                return q if op == '/' else x - q * y if op == 'mod' else ('rem', x, y)
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if n in ('bool_val', 'int_val') and len(t[3]) == 1 and \
                t[3][0][0] in ('bool', 'int'):
            v = t[3][0][1]
            return bool(v) if n == 'bool_val' else int(v)
        if n in ('bool_val', 'int_val') and len(t[3]) == 1 and unk(t[3][0]) in env:
            return env[unk(t[3][0])]
    if t[0] in ('bool', 'int'):
        return t[1]
    if t[0] == 'op' and t[1] in ('==', '!='):
        r = evl(t[2], env) == evl(t[3], env)
        return r if t[1] == '==' else not r
    if t[0] == 'not':
        return not evl(t[1], env)
    raise Unknown(show(t)[:120])


def adds(p):
    """formulas asserted on a path"""
    return [e for e in p.events if e.kind == 'call' and last(e.q) == 'add' and
            short(e.q).startswith('z3::solver') and e.args]


def expr_fields(ck):
    fs = [f['q'] for f in ck.fx.recs.get(VIS, {}).get('fields', ())
          if f['t'].replace('class ', '').endswith('z3::expr')]
    ck.need(fs, 'expressions of the constraint visitor')
    return fs


def result_field(ck):
    """the field in which a visit leaves the expression (written on most paths of the
    cases for operands)"""
    fs = expr_fields(ck)
    n = {}
    for fn in ck.fns(VIS + '::visit'):
        if 'Primary' in fn['params'][0]['t']:
            ps = [p for p in ck.paths(fn, join=False) if p.kind == 'ret']
            for p in ps:
                for f in fs:
                    if ('fld', THIS, f) in p.heap:
                        n[f] = n.get(f, 0) + 1
    top = [f for f in n if n[f] == max(n.values())]
    if len(top) == 1:
        return top[0]
    raise Undecided('result of a visit')


def visit_fn(ck, cls):
    for fn in ck.fns(VIS + '::visit'):
        if re.search(r'\b%s \*' % cls, fn['params'][0]['t']):
            return fn
    raise Undecided('no visit(%s)' % cls)


def accepts(p, par):
    return [e for e in p.events if e.kind == 'call' and last(e.q) == 'accept']


BOOLMEAN = {
    'CK_AND': lambda a, b: a and b, 'CK_OR': lambda a, b: a or b,
    'CK_XOR': lambda a, b: a != b, 'CK_EQUIVALENCE': lambda a, b: a == b,
    'CK_IMPLIES': lambda a, b: (not a) or b,
    'CK_EXCLUDES': lambda a, b: not (a and b),
}
NUMMEAN = {
    'CK_ADDITION': lambda a, b: a + b, 'CK_SUBTRACTION': lambda a, b: a - b,
    'CK_MULTIPLICATION': lambda a, b: a * b,
    'CK_DIVISION': lambda a, b: ('undef', '/', a) if b == 0 else (
        a // b if b > 0 else -(a // -b)),
    'CK_EQUAL': lambda a, b: a == b, 'CK_NOT_EQUAL': lambda a, b: a != b,
    'CK_LESS': lambda a, b: a < b, 'CK_LESS_EQUAL': lambda a, b: a <= b,
    'CK_GREATER': lambda a, b: a > b, 'CK_GREATER_EQUAL': lambda a, b: a >= b,
}
NUMS = (-7, -3, -2, -1, 0, 1, 2, 3, 5)


def kind_of(ck, p, par):
    """the constraint kind(s) a path is taken for"""
    C = classes(ck)
    kf = ('fld', par, C.kindf)
    pos, neg = [], set()
    for a, v in p.facts.items():
        if a[0] == 'eq' and kf in (a[1], a[2]):
            e = a[2] if a[1] == kf else a[1]
            if e[0] == 'enum':
                (pos.append(last(e[1])) if v else neg.add(last(e[1])))
        if a[0] == 'isa' and a[2] == par:
            for q, k in C.kind.items():
                if last(q) == a[1] and k[0] == 'enum':
                    (pos.append(last(k[1])) if v else neg.add(last(k[1])))
    return pos, neg


def after_map(p, par, ef):
    """after-terms of the result field -> operand accepted before"""
    m = {}
    for e in accepts(p, par):
        m[('after', ('fld', THIS, ef), e.res[-1])] = e.obj
    return m


@rule('P20', 'operator-meaning', 'For each kind of constraint, the expression '
      'left by the solver\'s visitor denotes the operator of this kind over the '
      'expressions of the operands in their order.')
def operator_meaning(ck):
    C = classes(ck)
    ef = result_field(ck)
    H = {'accept': expr_fields(ck)}
    for cls in ('BinaryConstraint', 'UnaryConstraint'):
        fn = visit_fn(ck, cls)
        par = ('param', 0, fn['params'][0]['n'])
        two = cls[0] == 'B'
        kinds = {last(C.kind[q][1]) for q, c in C.cls.items()
                 if c == ('bin' if two else 'un') and q in C.kind and
                 C.kind[q][0] == 'enum'}
        ops = [C.left, C.right] if two else [C.operand]
        done = set()
        for p in ck.paths(fn, havoc_calls=H, join=False):
            if p.kind != 'ret':
                continue
            pos, neg = kind_of(ck, p, par)
            acc = [e for e in accepts(p, par) if e.args and e.args[0] == THIS]
            ks = pos if pos else sorted(kinds - neg)
            if p.ret == FALSE:
                # only if an operand failed or for other kinds
                if not any(p.facts.get(('nn', e.res)) is False for e in accepts(p, par)):
                    for k in ks:
                        if k in kinds:
                            ck.bad('encoding of %s: result' % k, 'reported as failed although '
                                   'the operands are encoded', fn)
                continue
            for k in ks:
                if k not in kinds:
                    continue
                site = 'encoding of %s' % k
                done.add(k)
                # both operands were visited, and successfully
                ok = True
                for f in ops:
                    ea = [e for e in acc if e.obj == ('fld', par, f)]
                    if not ea:
                        ck.bad(site + ': operands', '%s is not visited' % last(f), fn)
                        ok = False
                    elif not any(p.facts.get(('nn', e.res)) is True or p.ret == e.res
                                 for e in ea):
                        ck.bad(site + ': operands', 'success although visiting %s '
                               'may have failed' % last(f), fn)
                        ok = False
                if not ok:
                    continue
                t = p.heap.get(('fld', THIS, ef))
                if t is None:
                    ck.bad(site, 'no expression is left', fn)
                    continue
                env0 = {}
                for a, o in after_map(p, par, ef).items():
                    env0.setdefault(o, []).append(unk(a))
                names = [env0.get(('fld', par, f), []) for f in ops]

                def env(*vals):
                    return {a: v for n, v in zip(names, vals) for a in n}
                try:
                    if two:
                        if k in BOOLMEAN:
                            dom, mean = (False, True), BOOLMEAN[k]
                        elif k in NUMMEAN:
                            dom, mean = NUMS, NUMMEAN[k]
                        else:
                            ck.undec(site, 'meaning of the operator not known')
                            continue
                        w = next(((a, b) for a in dom for b in dom
                                  if evl(t, env(a, b)) != mean(a, b)), None)
                    else:
                        dom = (False, True) if k == 'CK_NOT' else NUMS
                        mean = (lambda a: not a) if k == 'CK_NOT' else (lambda a: -a)
                        w = next(((a,) for a in dom if evl(t, env(a)) != mean(a)), None)
                except (Unknown, TypeError) as e:
                    ck.undec(site, 'expression %s' % e)
                    continue
                ck.req(w is None, site, 'encoded as %s, which differs for operands %s' % (
                    show(t)[:200], w), fn)
                for f in expr_fields(ck):
                    if f != ef:
                        x = p.heap.get(('fld', THIS, f))
                        lastn = max([e.res[-1] for e in accepts(p, par)] or [0])
                        ck.req(x is None or x == ('after', ('fld', THIS, f), lastn) or
                               x[0] != 'after' and mentions(
                                   x, lambda y: y[0] == 'after' and y[1][-1] == f),
                               site + ': other state', '%s becomes %s' % (
                                   last(f), show(x)[:120] if x else x), fn)
        for k in sorted(kinds - done):
            ck.bad('encoding of %s' % k, 'no path of the visitor handles it', fn)


def feature_of_name(ck, t):
    """the feature whose name is t"""
    R = roles(ck)
    if t[0] == 'fld' and t[2] == R.of.get('fname'):
        return t[1]
    if is_call(t, 'getName'):
        return t[2]
    return None


def var_of(ck, t):
    """('v', feature or name term) for the solver variable of a feature"""
    t = strip_conv(t)
    k = None
    if is_call(t, 'bool_const', 'int_const') and len(t[3]) == 1:
        k = t[3][0]
    elif t[0] in ('at', 'mapent') and len(t) > 2:
        k = t[2]
    elif is_call(t, 'operator[]', 'lookup', 'at') and len(t[3]) == 1:
        k = t[3][0]
    elif t[0] == 'found' and len(t) > 2:
        return var_of(ck, t[2])
    if k is None:
        return None
    f = feature_of_name(ck, k)
    return ('v', unk(f if f is not None else k))


def const_kind(ck, t):
    t = strip_conv(t)
    return last(t[1]) if is_call(t, 'bool_const', 'int_const') else None


@rule('P20', 'leaf-meaning', 'A feature becomes the solver variable of its name '
      '(integer for numeric features, 0 or 1 in mixed constraints, where it is '
      'also recorded among the required features), and a number itself.')
def leaf_meaning(ck):
    R = roles(ck)
    ef = result_field(ck)
    others = [f for f in expr_fields(ck) if f != ef]
    kindf = None
    for fn in ck.fns(V + 'Feature::getKind'):
        for p in ck.paths(fn):
            if p.ret[0] == 'fld':
                kindf = p.ret[2]
    fn = visit_fn(ck, 'PrimaryIntegerConstraint')
    par = ('param', 0, fn['params'][0]['n'])
    C = classes(ck)
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        if p.ret == FALSE:
            ck.bad('encoding of numbers', 'reported as failed', fn)
            continue
        t = strip_conv(p.heap.get(('fld', THIS, ef), VOID))
        while t[0] == 'call' and last(t[1]) == 'int_val' and \
                t[3][0][0] in ('conv',):
            break
        ok = is_call(t, 'int_val') and t[3] == (('fld', par, C.value),)
        if not ok and not (is_call(t, 'int_val') and mentions(
                t, lambda x: x == ('fld', par, C.value)) or t == VOID or
                not mentions(t, lambda x: x == ('fld', par, C.value))):
            ck.undec('encoding of numbers', show(t)[:120])
            continue
        ck.req(ok, 'encoding of numbers', 'becomes %s' % show(t)[:160], fn)
    fn = visit_fn(ck, 'PrimaryFeatureConstraint')
    par = ('param', 0, fn['params'][0]['n'])
    mixed = [f['q'] for f in ck.fx.recs[VIS]['fields'] if f['t'] == 'bool']
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        if p.ret == FALSE:
            if not any(a[0] == 'nn' and v is False and mentions(a, lambda t: t == par)
                       for a, v in p.facts.items()):
                ck.bad('encoding of features', 'reported as failed', fn)
            continue
        num = mx = None
        for a, v in p.facts.items():
            if a[0] == 'eq' and any(x[0] == 'enum' and last(x[1]) == 'FK_NUMERIC'
                                    for x in a[1:]):
                num = v
            if a[0] == 'isa' and a[1] == 'NumericFeature':
                num = v
            if a[0] == 'nn' and a[1][0] == 'fld' and a[1][1] == THIS and a[1][2] in mixed:
                mx = v
        t = p.heap.get(('fld', THIS, ef))
        if t is None:
            ck.bad('encoding of features', 'no expression is left', fn)
            continue
        t = strip_conv(t)
        feats = [x for x in walk(t) if is_call(x, 'bool_const', 'int_const')]
        own = bool(feats) and all(
            mentions(x, lambda y: y == par) and
            feature_of_name(ck, x[3][0]) is not None for x in feats)
        ck.req(own, 'variable of a feature', 'is %s, not named after the feature '
               'of the constraint' % show(t)[:160], fn)
        if not own or num is None:
            if num is None:
                ck.undec('encoding of features', 'kind of feature not distinguished')
            continue
        v = feats[0]
        if num:
            ck.req(is_call(t, 'int_const'), 'numeric feature in a constraint',
                   'becomes %s' % show(t)[:160], fn)
            for f in others:
                ck.req(p.heap.get(('fld', THIS, f), ('fld', THIS, f)) == ('fld', THIS, f),
                       'numeric features are not required', '%s becomes %s' % (
                           last(f), show(p.heap.get(('fld', THIS, f), VOID))[:120]), fn)
            continue
        ck.req(const_kind(ck, v) == 'bool_const', 'binary feature in a constraint',
               'becomes %s' % show(t)[:160], fn)
        if mx is None:
            ck.bad('binary feature in a constraint', 'mixed constraints are not '
                   'distinguished', fn)
            continue
        try:
            if not mx:
                r = [evl(t, {unk(v): x}) for x in (False, True)]
                ck.req(r == [False, True], 'binary feature in a boolean constraint',
                       'becomes %s' % show(t)[:160], fn)
            else:
                r = [evl(t, {unk(v): x}) for x in (False, True)]
                ck.req(r == [0, 1] and not any(isinstance(x, bool) for x in r),
                       'binary feature in a mixed constraint',
                       'counts as %s if not selected and as %s if selected' % tuple(r), fn)
                reqs = []
                for f in others:
                    x = p.heap.get(('fld', THIS, f))
                    if x is None:
                        continue
                    o = ('fld', THIS, f)
                    reqs.append(all(
                        evl(x, {o: b, unk(v): s}) == (b or not s)
                        for b in (False, True) for s in (False, True)))
                ck.req(reqs == [True], 'required features of a mixed constraint',
                       'the feature is not recorded as required', fn)
        except (Unknown, TypeError) as e:
            ck.undec('binary feature in a constraint', 'expression %s' % e)


@rule('P20', 'assertion-meaning', 'Adding a constraint asserts exactly its '
      'expression, negated for a negated mixed constraint, and only required if '
      'all features are selected when the constraint says so; a constraint that '
      'cannot be encoded is reported.')
def assertion_meaning(ck):
    ef = result_field(ck)
    fs = expr_fields(ck)
    others = [f for f in fs if f != ef]
    H = {'accept': fs}
    mixed = [f['q'] for f in ck.fx.recs[VIS]['fields'] if f['t'] == 'bool']
    for name, mx in (('addConstraint', False), ('addMixedConstraint', True)):
        fn = ck.fn(Z3S + '::' + name)
        par = ('param', 0, fn['params'][0]['n'])
        for p in ck.paths(fn, havoc_calls=H, join=False):
            if p.kind != 'ret':
                continue
            acc = [e for e in p.events if e.kind == 'call' and last(e.q) == 'accept']
            good = p.ret[0] == 'Ok'
            aa = adds(p)
            if not good:
                ck.req(not aa, name + ': failure', 'a formula is asserted although '
                       'an error is returned', fn)
                if acc and all(p.facts.get(('nn', e.res)) is True for e in acc):
                    ck.bad(name + ': failure', 'an error is returned although the '
                           'constraint is encoded', fn)
                continue
            if not (len(acc) == 1 and acc[0].obj == par and acc[0].args):
                ck.bad(name + ': visit', 'the constraint is not visited once', fn)
                continue
            ck.req(p.facts.get(('nn', acc[0].res)) is True, name + ': failed visit',
                   'a constraint that cannot be encoded is reported as added', fn)
            vis = acc[0].args[0]
            n = acc[0].res[-1]
            Ea = unk(('after', ('fld', vis, ef), n))
            Os = [unk(('after', ('fld', vis, f), n)) for f in others]
            if len(aa) != 1:
                ck.bad(name + ': assertion', '%d formulas are asserted' % len(aa), fn)
                continue
            if vis[0] == 'new':
                m = p.st.heap.get(('fld', vis, mixed[0])) if len(mixed) == 1 else None
                en = ck.last_engine
                try:
                    m = en.field_of_new(vis, mixed[0]) if m is None else m
                except Exception:
                    m = None
                if m is not None and m[0] == 'bool':
                    ck.req(m[1] == mx, name + ': kind of visitor',
                           'the visitor is created for %s constraints' % (
                               'mixed' if m[1] else 'boolean'), fn)
            neg = allr = None
            for a, v in p.facts.items():
                for nm, val in (('NEG', True), ('POS', False)):
                    if a[0] == 'eq' and any(x[0] == 'enum' and last(x[1]) == nm
                                            for x in a[1:]):
                        neg = val if v else (not val)
                for nm, val in (('ALL', True), ('NONE', False)):
                    if a[0] == 'eq' and any(x[0] == 'enum' and last(x[1]) == nm
                                            for x in a[1:]):
                        allr = val if v else (not val)
            t = aa[0].args[0]
            try:
                w = None
                for ng in ([False] if not mx else [neg] if neg is not None else [False, True]):
                    for al in ([False] if not mx else [allr] if allr is not None
                               else [False, True]):
                        for e in (False, True):
                            for o in (False, True):
                                env = {Ea: e}
                                env.update({x: o for x in Os})
                                r = evl(unk(t), env)
                                x = (e != ng) or (o if al else False)
                                if bool(r) != x:
                                    w = (ng, al, e, o)
                ck.req(w is None, name + ': asserted formula',
                       'asserts %s, which is wrong for negated=%s, all required=%s, '
                       'expression=%s, some feature deselected=%s' % (
                           (show(t)[:200],) + (w or (0, 0, 0, 0))), fn)
            except (Unknown, TypeError) as e:
                ck.undec(name + ': asserted formula', 'expression %s' % e)


# ------------------------------------------------------------------ P21
def map_field(ck):
    fs = [f['q'] for f in ck.fx.recs.get(Z3S, {}).get('fields', ())
          if 'Map' in f['t'] and 'expr' in f['t']]
    if len(fs) != 1:
        raise Undecided('map of solver variables')
    return ('fld', THIS, fs[0])


def add_feature(ck, what):
    for fn in ck.fns(Z3S + '::addFeature'):
        ts = [p['t'] for p in fn['params']]
        if what == 'feature' and 'Feature &' in ts[0]:
            return fn
        if what == 'values' and len(ts) > 1 and 'vector' in ts[1]:
            return fn
        if what == 'name' and len(ts) == 1 and 'Feature' not in ts[0]:
            return fn
    raise Undecided('addFeature of a ' + what)


def feature_kind(p, par):
    pos = None
    neg = set()
    for a, v in p.facts.items():
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'enum' and last(x[1]).startswith('FK_') and \
                        mentions(y, lambda z: z == par):
                    if v:
                        pos = last(x[1])
                    else:
                        neg.add(last(x[1]))
    if pos is None:
        for c, k in (('NumericFeature', 'FK_NUMERIC'), ('BinaryFeature', 'FK_BINARY'),
                     ('RootFeature', 'FK_ROOT')):
            if p.facts.get(('isa', c, par)) is True:
                pos = k
    return pos, neg


def contains(ck, p, m, feat):
    """is the name of the feature known to be in the map"""
    for a, v in p.facts.items():
        if a[0] == 'contains' and a[1] == m:
            f = feature_of_name(ck, a[2])
            if unk(f if f is not None else a[2]) == unk(feat):
                return v
        if a[0] == 'nn' and a[1][0] == 'call' and last(a[1][1]) in ('count', 'contains') \
                and a[1][2] == m:
            f = feature_of_name(ck, a[1][3][0])
            if unk(f if f is not None else a[1][3][0]) == unk(feat):
                return v
    return None


def parent_features(ck, p, par):
    """terms that stand for the nearest parent feature on this path (or None)"""
    R = roles(ck)
    out = []
    for a, v in p.facts.items():
        if a[0] == 'isa' and a[1] == 'Feature' and v is True and \
                a[2] != par and mentions(a[2], lambda x: x == R.f('parent', par)):
            out.append(a[2])
        if a[0] == 'nn' and v is True and is_call(a[1], 'getParentFeature') and \
                a[1][2] == par:
            out.append(a[1])
    return out


def registered(ck, p, m, f):
    """how the variable of f gets into the map: list of (kind, event)"""
    out = []
    for e in p.events:
        if e.kind != 'call':
            continue
        if last(e.q) == 'addFeature' and e.obj == THIS and e.args:
            x = feature_of_name(ck, e.args[0])
            if x is not None and unk(x) == unk(f):
                out.append(('call%d' % len(e.args), e))
        if e.obj == m and last(e.q) in ADD | {'operator[]'} and e.args:
            x = None
            for a in walk(e.args[0] if len(e.args) == 1 else ('x', *e.args)):
                y = feature_of_name(ck, a) if a and isinstance(a[0], str) else None
                if y is not None:
                    x = y
            if x is not None and unk(x) == unk(f) and last(e.q) != 'operator[]':
                out.append(('insert', e))
    return out


def equivalent(ck, p, expected, cases, norm):
    """conjunction of all asserted formulas against the expectation"""


@rule('P21', 'feature-formulas', 'A binary feature implies its parent feature, a '
      'parent implies its mandatory child outside groups, the root is asserted, '
      'and nothing else is asserted for a feature.')
def feature_formulas(ck):
    R = roles(ck)
    fn = add_feature(ck, 'feature')
    par = ('param', 0, fn['params'][0]['n'])
    alt = ('param', 1, fn['params'][1]['n'])
    m = map_field(ck)
    seen = set()
    for p in ck.paths(fn, join=False, opaque=[STEPNEXT]):
        if p.kind != 'ret' or p.ret[0] != 'Ok':
            continue
        kind, neg = feature_kind(p, par)
        if kind is None:
            ck.undec('features of a solver', 'kind of feature not distinguished')
            continue
        seen.add(kind)
        site = 'adding a %s feature' % kind[3:].lower()
        if kind == 'FK_UNKNOWN':
            ck.bad(site, 'is reported as added', fn)
            continue
        reg = registered(ck, p, m, par)
        want = {'FK_NUMERIC': ('call2',)}.get(kind, ('call1', 'insert'))
        if kind == 'FK_NUMERIC' and any(r[0] == 'insert' for r in reg):
            ck.undec(site + ': variable', 'inserted directly')
        else:
            ck.req(any(r[0] in want for r in reg), site + ': variable',
                   'no variable is registered for the feature', fn)
        pf = parent_features(ck, p, par)
        F = ('v', unk(par))
        Ps = {('v', unk(x)) for x in pf}
        env = {}
        aa = adds(p)

        def collect(t, acc):
            t = strip_conv(t)
            v = var_of(ck, t)
            if v is not None:
                acc.setdefault(v, set()).add(unk(t))
                return
            for x in t:
                if isinstance(x, tuple):
                    for y in (x if x and isinstance(x[0], tuple) else (x,)):
                        if isinstance(y, tuple) and y:
                            collect(y, acc)
        acc = {}
        for e in aa:
            collect(e.args[0], acc)
        atoms = sorted(acc, key=repr)
        # the root has no parent; map the parent atom
        extra = [a for a in atoms if a != F and a not in Ps]
        if any(e.loops for e in aa):
            ck.undec(site + ': formulas', 'asserted in a loop')
            continue
        if extra:
            # a name that is not the feature or its parent
            known = all(mentions(a, lambda x: x == par) for a in extra)
            ck.bad(site + ': formulas', 'asserts a formula over %s' % show(extra[0])[:120], fn) \
                if known else ck.undec(site + ': formulas', 'over %s' % show(extra[0])[:120])
            continue
        opt = p.facts.get(('nn', R.f('fopt', par)))
        ia = p.facts.get(('nn', alt))
        w = None
        try:
            for f in (False, True):
                for q in (False, True):
                    e0 = {}
                    for a in atoms:
                        for t in acc[a]:
                            e0[t] = f if a == F else q
                    got = all(evl(unk(e.args[0]), e0) for e in aa)
                    for o in ([opt] if opt is not None else [False, True]):
                        for i in ([ia] if ia is not None else [False, True]):
                            if kind == 'FK_BINARY':
                                x = (not f or q) and (o or i or not q or f)
                            elif kind == 'FK_ROOT':
                                x = f
                            else:
                                x = True
                            if got != x and w is None:
                                w = (f, q, o, i, x)
        except (Unknown, TypeError) as e:
            ck.undec(site + ': formulas', 'expression %s' % e)
            continue
        ck.req(w is None, site + ': formulas',
               'asserts %s; selected=%s, parent selected=%s, optional=%s, in group=%s '
               'should be %s' % (([show(e.args[0])[:120] for e in aa],) +
                                 (w[:4] if w else (0,) * 4) +
                                 ('possible' if w and w[4] else 'impossible',)), fn)
    ck.need(seen, 'successful paths of addFeature')
    for k in ('FK_BINARY', 'FK_NUMERIC', 'FK_ROOT'):
        ck.req(k in seen, 'adding a %s feature' % k[3:].lower(), 'is never successful', fn)


@rule('P21', 'feature-errors', 'A feature that is already present or whose parent '
      'is missing is not added but reported with the matching error.')
def feature_errors(ck):
    R = roles(ck)
    m = map_field(ck)
    fn = add_feature(ck, 'feature')
    par = ('param', 0, fn['params'][0]['n'])
    for p in ck.paths(fn, join=False, opaque=[STEPNEXT]):
        if p.kind != 'ret':
            continue
        own = contains(ck, p, m, par)
        pf = [x for x in parent_features(ck, p, par)]
        pc = [contains(ck, p, m, x) for x in pf]
        err = last(p.ret[1][1]) if p.ret[0] == 'Err' and p.ret[1][0] == 'enum' else None
        kind, _ = feature_kind(p, par)
        if p.ret[0] == 'Ok':
            ck.req(own is False, 'adding a present feature',
                   'succeeds without checking that the feature is new', fn)
            ck.req(not pf or True in pc, 'adding a feature below a missing parent',
                   'succeeds without checking that the parent is present', fn)
            if kind == 'FK_BINARY':
                ck.req(pf, 'adding a feature without parent', 'succeeds', fn)
        if False in pc:
            ck.req(err == 'PARENT_NOT_PRESENT' or own and err == 'ALREADY_PRESENT',
                   'error for a missing parent', 'is %s' % show(p.ret)[:80], fn)
        elif own is True:
            ck.req(err == 'ALREADY_PRESENT', 'error for a present feature',
                   'is %s' % show(p.ret)[:80], fn)
        if err == 'ALREADY_PRESENT':
            ck.req(own is not False, 'new features are accepted', 'a new feature is '
                   'rejected as present', fn)
        if err == 'PARENT_NOT_PRESENT':
            ck.req(not (pf and pc and all(x is True for x in pc)),
                   'features below present parents are accepted',
                   'a present parent is reported as missing', fn)
        if p.ret[0] == 'Err' and kind is None:
            ck.req(not adds(p) and not registered(ck, p, m, par),
                   'rejected features are not added', 'the feature is registered '
                   'before it is rejected', fn)


@rule('P21', 'feature-variables', 'Adding a feature by name creates the variable of '
      'this name; with values, the variable takes exactly one of these values.')
def feature_variables(ck):
    m = map_field(ck)
    for what in ('name', 'values'):
        fn = add_feature(ck, what)
        nm = ('param', 0, fn['params'][0]['n'])
        vals = ('param', 1, fn['params'][1]['n']) if what == 'values' else None
        site = 'addFeature(name%s)' % (', values' if vals else '')
        for p in ck.paths(fn, join=False, mark_loops=True):
            if p.kind != 'ret':
                continue
            own = contains(ck, p, m, nm)
            if p.ret[0] == 'Err':
                ck.req(own is True and p.ret[1][0] == 'enum' and
                       last(p.ret[1][1]) == 'ALREADY_PRESENT', site + ': error',
                       'is %s for a feature that is %s' % (
                           show(p.ret)[:60], 'present' if own else 'new'), fn)
                ck.req(not adds(p), site + ': rejected', 'asserts a formula', fn)
                continue
            if p.ret[0] != 'Ok':
                ck.undec(site, 'returns %s' % show(p.ret)[:80])
                continue
            ck.req(own is False or any(
                e.kind == 'call' and e.obj == m and last(e.q) in (
                    'insert', 'try_emplace') and any(
                        a[0] == 'nn' and mentions(a, lambda x: x == unk(e.res))
                        for a in p.facts) for e in p.events),
                   site + ': present', 'succeeds for a feature that is present', fn)
            ins = [e for e in p.events if e.obj == m and
                   (e.kind == 'call' and last(e.q) in ADD or e.kind == 'write')]
            ins += [e for e in p.events if e.kind == 'write' and e.obj and
                    e.obj[0] in ('at', 'mapent') and e.obj[1] == m]
            want = 'int_const' if vals else 'bool_const'
            ok = [e for e in ins if any(
                is_call(x, want) and x[3] == (nm,)
                for a in (e.args or ()) for x in walk(a) if x and isinstance(x[0], str))]
            ck.req(ok, site + ': variable', 'no %s variable of the given name is '
                   'registered' % ('integer' if vals else 'boolean'), fn)
            if not vals:
                ck.req(not adds(p), site + ': formula', 'asserts a formula', fn)
                continue
            aa = adds(p)
            el = None
            for e in p.events:
                for a in (e.args or ()):
                    for x in walk(a):
                        if x and x[0] == 'elem' and x[1] == vals:
                            el = x
            f = None
            for e in p.events:
                if e.kind == 'call' and last(e.q) == 'int_const' and e.args == (nm,):
                    f = unk(e.res)
            if p.facts.get(('empty', vals)) is True:
                continue
            if f is None or el is None:
                ck.bad(site + ': values', 'the values are not used', fn) if f and not el \
                    else ck.undec(site + ': values', 'variable not recognised')
                continue
            if any(e.kind == 'brk' for e in p.events):
                ck.bad(site + ': values', 'not all values are considered', fn)
                continue
            try:
                w = None
                for fv in (0, 1, 2):
                    env = {f: fv, unk(el): 1}
                    got = all(evl(unk(e.args[0]), env) for e in aa)
                    if got != (fv == 1):
                        w = fv
                one = len(aa) == 1 and not aa[0].loops
                ck.req(w is None and one, site + ': values',
                       'asserts %s for each of the values' % [
                           show(e.args[0])[:160] for e in aa], fn)
                if w is None and one:
                    # the formula of the earlier values has to be part of it
                    t = strip_conv(aa[0].args[0])
                    base = [x for x in walk(t) if is_call(x, 'bool_val')] or \
                        is_call(t, 'mk_or')
                    ck.req(base, site + ': all values', 'only the last value is '
                           'asserted', fn)
            except (Unknown, TypeError) as e:
                ck.undec(site + ': values', 'expression %s' % e)


@rule('P21', 'numeric-values', 'A numeric feature takes its listed values, or every '
      'value from the lower to the upper bound that its step function reaches.')
def numeric_values(ck):
    R = roles(ck)
    fn = add_feature(ck, 'feature')
    par = ('param', 0, fn['params'][0]['n'])
    R.need('values', 'step')
    vf = R.f('values', par)
    n = 0
    for p in ck.paths(fn, join=False, opaque=[STEPNEXT], mark_loops=True):
        if p.kind != 'ret':
            continue
        kind, _ = feature_kind(p, par)
        if kind != 'FK_NUMERIC':
            continue
        calls = [e for e in p.events if e.kind == 'call' and last(e.q) == 'addFeature'
                 and e.obj == THIS and len(e.args) == 2]
        lst = None
        for a, v in p.facts.items():
            if a[0] == 'holds' and a[2] == vf:
                lst = v if 'vector' in a[1] else not v
        if not calls:
            continue
        e = calls[-1]
        n += 1
        okf = p.facts.get(('nn', ('ok', e.res)))
        if p.ret[0] == 'Ok':
            ck.req(okf is True, 'result of adding the values', 'is ignored', fn)
        t = e.args[1]
        if lst is True:
            ck.req(t[0] == 'get' and t[2] == vf and 'vector' in t[1],
                   'values of a numeric feature', 'are %s' % show(t)[:120], fn)
            continue
        if lst is None:
            ck.undec('values of a numeric feature', 'not distinguished')
            continue
        ins = [x for x in p.events if x.kind == 'call' and x.obj is not None and
               unk(x.obj) == unk(t) and last(x.q) in ADD]
        rng = [x for a in p.facts for x in walk(a)
               if x and x[0] == 'fld' and x[1][0] in ('get',) and x[1][2] == vf]
        lo = next((x for x in rng if x[2].endswith('first')), None)
        hi = next((x for x in rng if x[2].endswith('second')), None)
        if lo is None or hi is None:
            ck.undec('value range', 'bounds not recognised')
            continue
        over = p.facts.get(('lt', hi, lo))
        strict = p.facts.get(('lt', lo, hi))
        if over is None and strict is not None:
            # lo < hi is tested: the upper bound itself has to be included
            if strict is False:
                ck.bad('value range', 'the upper bound is not included', fn) \
                    if not ins else None
            continue
        if over is None:
            st = [a[2] for a in p.facts if a[0] == 'lt' and a[1] == hi]
            if len(st) == 1 and st[0][0] in ('op', 'int') and any(
                    mentions(st[0], lambda y: y == lo) for y in (1,)):
                ck.bad('value range: lower bound', 'the first value is %s' %
                       show(st[0])[:120], fn)
            else:
                ck.undec('value range', 'condition not recognised')
            continue
        if over:
            ck.req(not ins, 'empty value range', 'has values', fn)
            continue
        if not ins:
            ck.bad('value range', 'the lower bound is not a value', fn)
            continue
        ck.req(unk(ins[0].args[-1]) == unk(lo), 'value range: lower bound',
               'the first value is %s' % show(ins[0].args[-1])[:120], fn)
        nxt = [x for x in p.events if x.kind == 'call' and short(x.q) == STEPNEXT]
        has = p.facts.get(('nn', R.f('step', par)))
        sets = [x for x in p.events if x.kind == 'set' and x.loops and x.args and
                mentions(x.args[0], lambda y: unk(y) == unk(lo))]
        if has is True:
            ck.req(nxt and nxt[-1].obj == R.f('step', par) and unk(nxt[-1].args[0]) == unk(lo),
                   'step of a value range', 'the step function of the feature is not '
                   'applied to the value', fn)
            for x in sets:
                ck.req(mentions(x.args[0], lambda y: is_call(y, 'next')),
                       'step of a value range', 'is %s' % show(x.args[0])[:120], fn)
        elif has is False:
            for x in sets:
                ck.req(unk(x.args[0]) in (('op', '+', unk(lo), ('int', 1)),
                                          ('op', '+', ('int', 1), unk(lo))),
                       'step of a value range', 'is %s' % show(x.args[0])[:120], fn)
        else:
            ck.bad('step of a value range', 'the step function is not considered', fn)
        # a break before the bound only if the step does not advance
        if any(x.kind == 'brk' for x in p.events):
            adv = [v for a, v in p.facts.items() if a[0] == 'lt' and
                   unk(a[1]) == unk(lo) and a[2] != hi]
            ck.req(adv == [False], 'end of a value range', 'values are left out', fn)
    ck.need(n, 'numeric values')


@rule('P21', 'group-formulas', 'For a group, a selected parent implies at least one '
      'selected member, and for alternatives at most one, over all members.')
def group_formulas(ck):
    R = roles(ck)
    fn = ck.fn(Z3S + '::addRelationship')
    par = ('param', 0, fn['params'][0]['n'])
    ch = ('edges', par)
    seen = set()
    for p in ck.paths(fn, join=False, mark_loops=True):
        if p.kind != 'ret' or p.ret[0] != 'Ok':
            continue
        if p.facts.get(('empty', ch)) is True:
            continue
        kind = None
        no = set()
        for a, v in p.facts.items():
            if a[0] == 'eq' and any(x[0] == 'enum' and last(x[1]).startswith('RK_') for x in a[1:]):
                e = last(next(x[1] for x in a[1:] if x[0] == 'enum' and last(x[1]).startswith('RK_')))
                if v:
                    kind = e
                else:
                    no.add(e)
        if kind is None:
            left = {'RK_ALTERNATIVE', 'RK_OR'} - no
            if len(left) == 2:
                ck.bad('formula of a group', 'the kind of the group is not considered', fn)
                continue
            if not left:
                continue        # no such kind
            kind = left.pop()
        seen.add(kind)
        site = 'formula of a group of kind %s' % kind
        aa = adds(p)
        vecs = {unk(e.obj) for e in p.events if e.kind == 'call' and
                last(e.q) == 'push_back' and e.obj is not None and 'z3' in short(e.q)}
        vecs |= {unk(x) for e in aa for x in walk(e.args[0])
                 if x and x[0] == 'new' and 'vector' in x[1]}
        if not vecs or any(e.loops for e in aa):
            if aa:
                ck.undec(site, 'members not collected in a vector')
            else:
                ck.bad(site, 'nothing is asserted', fn)
            continue
        pushed = [e for e in p.events if e.kind == 'call' and last(e.q) == 'push_back'
                  and e.obj is not None and unk(e.obj) in vecs]
        mem = [e for e in pushed if len(e.args) == 1 and
               var_of(ck, e.args[0]) is not None and
               var_of(ck, e.args[0])[1] == ('elem', ch)]
        if p.facts.get(('empty', ch)) is False:
            ck.req(mem, site + ': members', 'a child is not a member (pushed: %s)' % [
                show(e.args[0])[:80] for e in pushed], fn)
            ck.req(len(pushed) == len(mem), site + ': members',
                   'other members: %s' % [show(e.args[0])[:80] for e in pushed], fn)
            ck.req(not any(e.kind == 'brk' for e in p.events), site + ': members',
                   'not all children are members', fn)

        def ev2(t, P, some, most):
            t = strip_conv(t)
            if is_call(t, 'mk_or') and unk(t[3][0]) in vecs:
                return some
            if is_call(t, 'atleast') and unk(t[3][0]) in vecs:
                if t[3][1] == ('int', 1):
                    return some
                raise Bad('at least %s members' % show(t[3][1]))
            if is_call(t, 'atmost') and unk(t[3][0]) in vecs:
                if t[3][1] == ('int', 1):
                    return most
                raise Bad('at most %s members' % show(t[3][1]))
            if is_call(t, 'mk_and') and unk(t[3][0]) in vecs:
                raise Bad('all members')
            if is_call(t, 'pbeq', 'pbge', 'pble', 'distinct', 'sum'):
                raise Unknown(show(t)[:100])
            v = var_of(ck, t)
            if v is not None:
                ok = v[1] in (unk(('fld', par, R.of['parent'])),) or \
                    is_call(v[1], 'getParent', 'getParentFeature')
                if ok:
                    return P
                raise Bad('the variable %s' % show(t)[:100])
            if t[0] == 'call':
                op = OPS.get(last(t[1]))
                a = t[3]
                if op in ('and', 'or', 'imp', 'eq', 'ne') and len(a) == 2:
                    x, y = ev2(a[0], P, some, most), ev2(a[1], P, some, most)
                    return {'and': x and y, 'or': x or y, 'imp': (not x) or y,
                            'eq': x == y, 'ne': x != y}[op]
                if op == 'not' and len(a) == 1:
                    return not ev2(a[0], P, some, most)
            raise Unknown(show(t)[:100])
        try:
            w = None
            for P in (False, True):
                # (none selected, one, several)
                for some, most in ((False, True), (True, True), (True, False)):
                    got = all(ev2(e.args[0], P, some, most) for e in aa)
                    x = (not P) or (some and (most or kind == 'RK_OR'))
                    # members imply the parent by the formulas of the features
                    if not P and (some or not most):
                        continue
                    if bool(got) != x:
                        w = (P, 'several' if not most else 'one' if some else 'no')
            ck.req(w is None, site, 'asserts %s, wrong for parent=%s and %s selected '
                   'members' % (([show(e.args[0])[:160] for e in aa],) + (w or (0, 0))), fn)
        except Bad as e:
            ck.bad(site, 'requires %s' % e, fn)
        except Unknown as e:
            ck.undec(site, 'expression %s' % e)
    for k in ('RK_ALTERNATIVE', 'RK_OR'):
        ck.req(k in seen, 'formula of a group of kind %s' % k, 'not handled', fn)


class Bad(Exception):
    pass


# ------------------------------------------------------------------ P22
@rule('P22', 'loads-everything', 'Loading a model adds every feature (telling whether it '
      'belongs to a group), every group and every constraint with its own '
      'parameters, once, features first.')
def loads_everything(ck):
    R = roles(ck)
    fns = [f for f in ck.fns(SOL + 'SolverFactory::initializeSolver')
           if len(f['params']) == 2 and 'FeatureModel' in f['params'][0]['t']]
    ck.need(fns, 'SolverFactory::initializeSolver')
    fn = fns[0]
    M = ('param', 0, fn['params'][0]['n'])
    src = {k: R.f(k, M) for k in ('bcons', 'ncons', 'mcons', 'rels')}
    mc = V + 'FeatureModel::MixedConstraint'
    exprk = acc_field(ck, mc + '::exprKind')
    reqf = acc_field(ck, mc + '::req')
    n = 0
    allp = ck.paths(fn, join=False, max_paths=20000, mark_loops=True)
    visits = any(visits_members(src['rels'], p) for p in allp)
    for p in allp:
        if p.kind != 'ret':
            continue
        n += 1
        if visits and p.facts.get(('empty', src['rels'])) is False:
            ck.req(visits_members(src['rels'], p), 'members of groups',
                   'the members of some groups are not recorded', fn)
        ev = [e for e in p.events if e.kind == 'call' and last(e.q).startswith('add') and
              'Solver' in short(e.q)]
        order = []
        if any(e.kind == 'brk' for e in p.events):
            ck.bad('loading of a model', 'stops early', fn)
        feats = [e for e in ev if last(e.q) == 'addFeature']
        rng = {e.loops[-1] for e in feats if e.loops}
        fr = [a[1] for a, v in p.facts.items() if a[0] == 'empty' and v is False and
              is_feature_range(R, a[1], M)]
        for c in set(fr):
            mine = [e for e in feats if e.loops == (c,) and e.args and
                    e.args[0][:2] == ('elem', c)]
            ck.req(len(mine) == 1, 'every feature is added once',
                   'a feature is added %d times' % len(mine), fn)
            ordered = c[0] in ('rng', 'call') or not (
                c[0] == 'fld' and c[2] == R.of['features'])
            ck.req(ordered, 'features are added parents first',
                   'iterates %s' % show(c)[:100], fn)
        if rng and not fr:
            ck.undec('every feature is added once', 'iteration over %s not recognised' % [
                show(x)[:60] for x in rng])
        for k, meth, what in (('bcons', 'addConstraint', 'boolean constraint'),
                              ('ncons', 'addConstraint', 'non-boolean constraint'),
                              ('mcons', 'addMixedConstraint', 'mixed constraint'),
                              ('rels', 'addRelationship', 'group')):
            c = src[k]
            if p.facts.get(('empty', c)) is not False:
                continue
            mine = [e for e in ev if last(e.q) == meth and c in e.loops and e.args and
                    mentions(e.args[0], lambda x: x[:2] == ('elem', c))]
            wrong = [e for e in ev if last(e.q) != meth and c in e.loops and e.args and
                     last(e.q) != 'addFeature' and
                     mentions(e.args[0], lambda x: x[:2] == ('elem', c))]
            ck.req(len(mine) == 1 and not wrong, 'every %s is added once' % what,
                   'it is added %d times%s' % (
                       len(mine), ' and by ' + last(wrong[0].q) if wrong else ''), fn)
            for e in mine:
                ff = [x for x in ev if last(x.q) == 'addFeature']
                i = p.events.index(e)
                ck.req(all(p.events.index(x) < i for x in ff), 'features are added '
                       'before every %s' % what, 'a feature is added later', fn)
                if k == 'mcons' and len(e.args) == 3:
                    for a, f, nm in ((e.args[1], exprk, 'kind'), (e.args[2], reqf, 'requirement')):
                        ck.req(a[0] == 'fld' and a[2] == f and a[1][:2] == ('elem', c),
                               '%s of mixed constraints' % nm, 'is %s' % show(a)[:100], fn)
                if k != 'rels':
                    ck.req(e.args[0] != ('elem', c) and e.args[0][0] != 'new',
                           'constraint of a %s' % what, show(e.args[0])[:80], fn)
        # group membership
        for e in feats:
            if len(e.args) < 2 or not e.args[0][:1] == ('elem',):
                if len(e.args) == 1 and e.args[0][0] == 'elem':
                    ck.bad('membership in groups', 'is not passed to the solver', fn)
                continue
            a = e.args[1]
            memb = [v for x, v in p.facts.items() if x[0] == 'contains' and
                    mentions(x[2], lambda y: y == e.args[0]) or
                    x[0] == 'isa' and x[1] == 'Relationship' and
                    mentions(x[2], lambda y: y == e.args[0])]
            if a[0] == 'bool':
                if memb:
                    ck.req(a[1] == memb[-1], 'membership in groups',
                           '%s is passed for a feature that is %s a group' % (
                               a[1], 'in' if memb[-1] else 'not in'), fn)
                elif p.facts.get(('empty', src['rels'])) is True:
                    ck.req(a[1] is False, 'membership in groups', 'is %s without groups' % a[1], fn)
                else:
                    ck.bad('membership in groups', 'is always %s' % a[1], fn)
        # the membership list covers every child
        if p.facts.get(('empty', src['rels'])) is False:
            el = [x for a in p.facts for x in walk(a) if x and x[0] == 'edges' and
                  x[1][:2] == ('elem', src['rels'])]
            for c in set(el):
                if p.facts.get(('empty', c)) is False:
                    ins = [e for e in p.events if e.kind == 'call' and c in e.loops and
                           last(e.q) in ADD and e.args]
                    if ins:
                        x = feature_of_name(ck, e_name(ins[-1].args[-1]))
                        ck.req(x is not None and x[:2] == ('elem', c) or
                               ins[-1].args[-1][:2] == ('elem', c),
                               'members of groups', 'recorded as %s' % show(ins[-1].args[-1])[:80], fn)
                    elif any(e.kind == 'iter' and e.args[0] == c for e in p.events):
                        ck.bad('members of groups', 'a member is not recorded', fn)
    ck.need(n, 'paths of initializeSolver')
    # each collection is visited at all
    for k, what in (('bcons', 'boolean constraints'), ('ncons', 'non-boolean constraints'),
                    ('mcons', 'mixed constraints'), ('rels', 'groups')):
        vis = any(('empty', src[k]) in p.facts for p in allp)
        ck.req(vis, 'the %s are loaded' % what, 'they are never visited', fn)


def visits_members(rels, p):
    return any(a[0] == 'empty' and a[1][0] == 'edges' and
               a[1][1][:2] == ('elem', rels) for a in p.facts)


def e_name(t):
    while t[0] == 'new' and t[2]:
        t = t[2][0]
    return t


def acc_field(ck, q):
    for f in ck.fns(q):
        for p in ck.paths(f):
            if p.ret and p.ret[0] == 'fld' and p.ret[1] == THIS:
                return p.ret[2]
    raise Undecided('accessor %s' % q)


def is_feature_range(R, c, M):
    if c == R.f('features', M):
        return True
    return c[0] in ('rng', 'call', 'new') and mentions(
        c, lambda x: x == R.f('root', M)) or \
        c[0] == 'call' and last(c[1]) == 'features' and c[2] == M


# ------------------------------------------------------------------ P23
@rule('P23', 'exclusion', 'The model found last is excluded by requiring that some '
      'feature has another value, over all features of the solver.')
def exclusion(ck):
    m = map_field(ck)
    fn = ck.fn(Z3S + '::getNextConfiguration')
    n = 0
    for p in ck.paths(fn, join=False, mark_loops=True):
        if p.kind != 'ret':
            continue
        chk = [e for e in p.events if e.kind == 'call' and last(e.q) == 'check']
        if not chk:
            ck.bad('next configuration', 'is not searched for', fn)
            continue
        sat = None
        for a, v in p.facts.items():
            if a[0] == 'eq' and a[1] == chk[0].res or a[0] == 'eq' and a[2] == chk[0].res:
                e = a[2] if a[1] == chk[0].res else a[1]
                nm = last(e[1]) if e[0] == 'enum' else None
                if nm == 'unsat':
                    sat = not v
                elif nm == 'sat':
                    sat = v
        if sat is None:
            ck.undec('next configuration', 'result of the search not recognised')
            continue
        if not sat:
            ck.req(p.ret[0] == 'Err' and p.ret[1][0] == 'enum' and last(p.ret[1][1]) == 'UNSAT',
                   'end of the enumeration', 'returns %s' % show(p.ret)[:80], fn)
            ck.req(not adds(p), 'end of the enumeration', 'asserts a formula', fn)
            continue
        gm = [e for e in p.events if e.kind == 'call' and last(e.q) == 'get_model']
        if not gm:
            ck.bad('next configuration', 'the found model is not fetched', fn)
            continue
        ck.req(p.events.index(gm[0]) > p.events.index(chk[0]), 'next configuration',
               'the model is fetched before the search', fn)
        mod = gm[0].res
        wr = [e for e in p.events if e.kind == 'write' and e.args == (mod,)]
        ck.req(wr, 'current model', 'is not replaced by the found model', fn)
        if p.facts.get(('nn', mod)) is False:
            continue
        ck.req(p.ret[0] == 'Ok' or is_call(p.ret, 'getCurrentConfiguration') and
               p.ret[2] == THIS, 'result of the search', 'is %s' % show(p.ret)[:80], fn)
        aa = adds(p)
        if p.facts.get(('empty', m)) is True:
            continue
        n += 1
        if len(aa) != 1 or aa[0].loops:
            ck.bad('exclusion of a configuration', '%d formulas are asserted%s' % (
                len(aa), ' in a loop' if aa and aa[0].loops else ''), fn)
            continue
        el = None
        for e in p.events:
            if e.kind == 'call' and last(e.q) == 'eval' and e.obj == mod and e.args and \
                    e.args[0][:2] == ('elem', m):
                el = e.args[0]
                val = e.res
                compl = len(e.args) > 1 and e.args[1] == TRUE
        if el is None:
            ck.bad('exclusion of a configuration', 'the value of a feature in the found '
                   'model is not considered', fn)
            continue
        ck.req(compl, 'values of unconstrained features', 'are not completed', fn)
        isb = istrue = None
        for a, v in p.facts.items():
            if a[0] == 'nn' and is_call(a[1], 'is_bool') and (a[1][2] in (val, el)):
                isb = v
            if a[0] == 'nn' and is_call(a[1], 'is_true') and a[1][2] == val:
                istrue = v
            if a[0] == 'nn' and is_call(a[1], 'is_false') and a[1][2] == val:
                istrue = not v
            if a[0] == 'nn' and is_call(a[1], 'is_int', 'is_numeral', 'is_arith') and a[1][2] in (val, el):
                isb = not v
        t = unk(aa[0].args[0])
        w = None
        try:
            if isb is True and istrue is not None:
                for o in (False, True):
                    got = evl(t, {unk(el): o, unk(val): istrue})
                    if bool(got) != (o != istrue):
                        w = 'a feature that is %s in the found configuration may not ' \
                            'be %s afterwards' % (istrue, o) if not got else \
                            'the found value is not excluded'
            else:
                for o in (2, 3, 4):
                    got = evl(t, {unk(el): o, unk(val): 3})
                    if bool(got) != (o != 3):
                        w = 'the found value is %s' % (
                            'not excluded' if got else 'excluded with others')
                if istrue is None and isb is not False:
                    for o in (False, True):
                        for x in (False, True):
                            if bool(evl(t, {unk(el): o, unk(val): x})) != (o != x):
                                w = 'boolean values are not distinguished'
            ck.req(w is None, 'exclusion of a configuration', '%s (asserts %s)' % (
                w, show(t)[:160]), fn)
        except (Unknown, TypeError) as e:
            ck.undec('exclusion of a configuration', 'expression %s' % e)
        ck.req(not any(e.kind == 'brk' for e in p.events), 'all features are excluded',
               'the iteration stops early', fn)
        base = [x for x in walk(aa[0].args[0]) if is_call(x, 'bool_val')] or \
            is_call(strip_conv(aa[0].args[0]), 'mk_or', 'mk_and') or \
            any(is_call(x, 'mk_or', 'mk_and') for x in walk(aa[0].args[0]))
        ck.req(base, 'all features are excluded', 'only the value of one feature is '
               'excluded', fn)
    ck.need(n, 'exclusion of configurations')


@rule('P23', 'current', 'The current configuration holds the value of every feature in '
      'the current model; without one, the first is searched for.')
def current(ck):
    m = map_field(ck)
    fn = ck.fn(Z3S + '::getCurrentConfiguration')
    mods = [f['q'] for f in ck.fx.recs[Z3S]['fields'] if 'model' in f['t']]
    if len(mods) != 1:
        raise Undecided('current model')
    cm = ('fld', THIS, mods[0])
    setq = V + 'Configuration::setConfigurationOption'
    for p in ck.paths(fn, join=False, mark_loops=True, outs={'is_numeral': [0]},
                      opaque=[setq]):
        if p.kind != 'ret':
            continue
        has = p.facts.get(('nn', cm))
        if has is False:
            ck.req(is_call(p.ret, 'getNextConfiguration') and p.ret[2] == THIS,
                   'first configuration', 'is %s' % show(p.ret)[:80], fn)
            continue
        if has is None:
            ck.undec('current configuration', 'existence of a model not checked')
            continue
        if p.ret[0] != 'Ok':
            ck.undec('current configuration', 'returns %s' % show(p.ret)[:80])
            continue
        if p.facts.get(('empty', m)) is True:
            continue
        st = [e for e in p.events if e.kind == 'call' and short(e.q) == setq]
        ck.req(not any(e.kind == 'brk' for e in p.events), 'options of a configuration',
               'not all features are considered', fn)
        if not st:
            ck.bad('options of a configuration', 'a feature is left out', fn)
            continue
        e = st[-1]
        ck.req(unk(e.obj) == unk(p.ret[1]), 'options of a configuration',
               'are set in another configuration', fn)
        k, v = e.args[0], e.args[1]
        ck.req(is_call(k, 'getKey') and k[2][:2] == ('elem', m) or
               k[0] == 'fld' and k[1][:2] == ('elem', m), 'option names',
               'are %s' % show(k)[:80], fn)
        src = [x for x in walk(v) if is_call(x, 'eval')]
        ck.req(src and src[0][2] == cm and src[0][3][0][:2] == ('elem', m),
               'option values', 'are %s, not the value in the current model' % show(v)[:120], fn)
        ck.req(not src or len(src[0][3]) > 1 and src[0][3][1] == TRUE,
               'values of unconstrained features', 'are not completed', fn)
        num = [x for a, x in p.facts.items() if a[0] == 'nn' and is_call(a[1], 'is_numeral')]
        if v[0] == 'out' or is_call(v, 'to_string'):
            ck.req(v[0] != 'out' or num and num[0] is True, 'option values',
                   'the text of a number is used for another value', fn)
            if is_call(v, 'to_string') and num == [True]:
                ck.good('option values')


@rule('P23', 'iteration', 'The iterator moves to the next configuration until the '
      'solver reports none, and the lists contain each of them, at most as many as '
      'requested, or an error.')
def iteration(ck):
    IT = CITE + '::ConfigurationIterator'
    for fn in ck.fns(IT + '::operator++'):
        for p in ck.paths(fn, join=False):
            if p.kind != 'ret':
                continue
            nx = [e for e in p.events if e.kind == 'call' and last(e.q) == 'getNextConfiguration']
            ck.req(len(nx) == 1, 'advancing the iterator', 'searches %d times' % len(nx), fn)
            if len(nx) != 1:
                continue
            ok = p.facts.get(('nn', ('ok', nx[0].res)))
            nul = [e for e in p.events if e.kind == 'write' and e.args == (NULL,)]
            if ok is False:
                ck.req(nul, 'end of the iteration', 'is not reached when no configuration '
                       'is left', fn)
            elif ok is True:
                ck.req(not nul, 'end of the iteration', 'is reached although a '
                       'configuration was found', fn)
            else:
                ck.bad('end of the iteration', 'the result of the search is ignored', fn)
            ck.req(p.ret == THIS, 'advancing the iterator', 'returns %s' % show(p.ret)[:60], fn)
    for fn in ck.fns(IT + '::operator*'):
        for p in ck.paths(fn):
            if p.kind == 'ret':
                ck.req(is_call(p.ret, 'getCurrentConfiguration'), 'element of the iterator',
                       'is %s' % show(p.ret)[:80], fn)
    init = [SOL + 'SolverFactory::initializeSolver']
    for name in ('getAllConfigs', 'getNConfigs'):
        fn = ck.fn(CFAC + '::' + name)
        N = next((('param', i, q['n']) for i, q in enumerate(fn['params'])
                  if q['t'].startswith(('unsigned', 'uint', 'size_t'))), None)
        for p in ck.paths(fn, join=False, mark_loops=True, opaque=init):
            if p.kind != 'ret':
                continue
            conts = {a[1] for a in p.facts if a[0] == 'empty' and
                     a[1][0] == 'new' and 'Iterable' in a[1][1]}
            for c in conts:
                if p.facts.get(('empty', c)) is not False:
                    continue
                els = {x for a in p.facts for x in walk(a) if x and x[0] == 'elem' and x[1] == c}
                ins = [e for e in p.events if e.kind == 'call' and last(e.q) in ADD and
                       c in e.loops]
                ok = [p.facts.get(('nn', ('ok', x))) for x in els]
                if name == 'getAllConfigs' and any(e.kind == 'brk' for e in p.events):
                    ck.bad('all configurations', 'the list stops early', fn)
                if ok and ok[0] is False:
                    ck.req(not ins, name + ': failing search', 'a missing configuration is '
                           'added', fn)
                    if name == 'getAllConfigs':
                        ck.req(p.ret[0] == 'Err', 'all configurations: error',
                               'the error of the solver is dropped', fn)
                    continue
                if ok and ok[0] is True and p.ret[0] == 'Ok':
                    ck.req(len(ins) == 1 and ins[0].args[-1][0] == 'val' and
                           ins[0].args[-1][1] in els,
                           name + ': configurations', 'a found configuration is added %d '
                           'times' % len(ins), fn)
                    ck.req(not ins or unk(p.ret[1]) == unk(ins[0].obj),
                           name + ': result', 'is %s' % show(p.ret)[:80], fn)
                if not ok and ins:
                    ck.bad(name + ': failing search', 'the result of the solver is not '
                           'checked', fn)
                if N is None or not ins:
                    continue
                vec = unk(ins[0].obj)
                bounds, other = [], False
                for a, v in p.facts.items():
                    if a[0] in ('eq', 'lt') and N in a[1:]:
                        o = a[2] if a[1] == N else a[1]
                        if o[0] == 'size' and strip_ver(o[1]) == vec:
                            after = o[1] != ins[0].obj
                            bounds.append((a[0], a[1] == N, v, after))
                        else:
                            other = True
                pos = p.facts.get(('nn', N))
                before = any(not af and (k == 'lt' and not nf and v) or
                             not af and k == 'eq' and not v for k, nf, v, af in bounds)
                more = any(e.kind == 'iter' for e in p.events)
                goes = any(af and (k == 'eq' and v is False or
                                   k == 'lt' and not nf and v) for k, nf, v, af in bounds)
                if before:
                    ck.good('at most n configurations')
                elif pos is True and (not more or goes):
                    ck.good('at most n configurations')
                elif other:
                    ck.undec('at most n configurations', 'bound not recognised')
                else:
                    ck.bad('at most n configurations', 'the list goes on although n '
                           'configurations may be reached' if pos is True else
                           'a configuration is added although none is requested', fn)
                # the list does not stop before n
                if any(e.kind == 'brk' for e in p.events) and not other:
                    st = any(af and (k == 'eq' and v or k == 'lt' and not nf and not v)
                             or not af and (k == 'eq' and v or k == 'lt' and not nf and not v)
                             for k, nf, v, af in bounds)
                    ck.req(st, 'n configurations if there are as many',
                           'the list stops before', fn)
    for name in ('isValid',):
        fn = ck.fn(CFAC + '::' + name)
        for p in ck.paths(fn, join=False, opaque=init):
            if p.kind != 'ret':
                continue
            h = [e for e in p.events if e.kind == 'call' and last(e.q) == 'hasValidConfigurations']
            if len(h) != 1:
                ck.undec('validity of a model', 'not recognised')
                continue
            ok = p.facts.get(('nn', ('ok', h[0].res)))
            val = p.facts.get(('nn', ('val', h[0].res)))
            if p.ret in (TRUE, FALSE):
                ck.req((p.ret == TRUE) == bool(ok and val), 'validity of a model',
                       '%s is returned for %s' % (p.ret[1], val if ok else 'an error'), fn)
    fn = ck.fn(Z3S + '::hasValidConfigurations')
    mods = [f['q'] for f in ck.fx.recs[Z3S]['fields'] if 'model' in f['t']]
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        cm = p.facts.get(('nn', ('fld', THIS, mods[0]))) if len(mods) == 1 else None
        if cm is True:
            ck.req(p.ret[0] == 'Err', 'validity after enumeration started',
                   'returns %s' % show(p.ret)[:60], fn)
        elif p.ret[0] == 'Ok' and p.ret[1][0] == 'bool':
            s = [v if last((a[2] if a[2][0] == 'enum' else a[1])[1]) == 'sat' else None
                 for a, v in p.facts.items() if a[0] == 'eq' and
                 any(x[0] == 'enum' and last(x[1]) in ('sat', 'unsat') for x in a[1:])]
            u = [v if last((a[2] if a[2][0] == 'enum' else a[1])[1]) == 'unsat' else None
                 for a, v in p.facts.items() if a[0] == 'eq' and
                 any(x[0] == 'enum' and last(x[1]) in ('sat', 'unsat') for x in a[1:])]
            if True in s or False in u:
                ck.req(p.ret[1][1] is True, 'satisfiable models are valid', 'reported as '
                       'invalid', fn)
            elif False in s or True in u:
                ck.req(p.ret[1][1] is False, 'unsatisfiable models are invalid',
                       'reported as valid', fn)


def strip_ver(t):
    while t[0] == 'ver':
        t = t[1]
    return unk(t)
