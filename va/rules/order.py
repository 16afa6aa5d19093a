"""Iteration and order of features (P27)."""
import copy
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V

PUT = ADD | {'push', 'emplace', 'insert'}

IT = V + 'FeatureModel::DFSIterator'
MIT = V + 'FeatureModel::FeatureMapIterator'
GPF = V + 'Feature::getParentFeature'
NODE = V + 'FeatureTreeNode'
LT = V + 'Feature::operator<'


class Clean:
    """a path without occurrence counters"""

    def __init__(self, p, facts):
        self.kind, self.facts, self.ret = p.kind, facts, unk(p.ret)
        self.events = []
        for e in p.events:
            c = copy.copy(e)
            c.obj = unk(e.obj) if e.obj is not None else None
            c.args = tuple(unk(a) for a in e.args or ())
            c.loops = tuple(unk(a) for a in e.loops or ())
            self.events.append(c)


def clean(ck, f, **kw):
    for p in ck.paths(f, join=False, **kw):
        fs = ufacts(p)
        if fs is not None:
            yield Clean(p, fs)


def top_of(t):
    """container whose top element the term is"""
    return t[1] if t[0] == 'back' else None


def frontier(ck):
    for f in ck.fns(IT + '::operator*'):
        for p in ck.paths(f):
            if p.ret != NULL and top_of(p.ret) and p.ret[1][0] == 'fld':
                return p.ret[1]
    raise Undecided('elements of the ordered iteration')


def name_less(t, a, b, fname):
    """True if the term says that the name of a is before that of b, False if
    the reverse, None if it is something else"""
    if t[0] == 'not':
        return None
    l = None
    if t[0] == 'call' and last(t[1]) in ('operator<', 'operator>'):
        xs = ((t[2],) if t[2] else ()) + tuple(t[3])
        l = (last(t[1])[-1],) + xs
    elif t[0] == 'op' and t[1] in '<>':
        l = (t[1], t[2], t[3])
    if not l or len(l) != 3:
        return None

    def of(x):
        return any(s == a or s and s[0] == 'fld' and s[1] == a for s in walk(x) if s), \
            any(s == b or s and s[0] == 'fld' and s[1] == b for s in walk(x) if s)
    x, y = of(l[1]), of(l[2])
    if not all(mentions(z, lambda s: s[0] == 'fld' and s[2] == fname) for z in l[1:]):
        return None
    if x == (True, False) and y == (False, True):
        return l[0] == '<'
    if x == (False, True) and y == (True, False):
        return l[0] == '>'
    return None


@rule('P27', 'start', 'Ordered iteration of a model starts at its root and ends when '
      'no feature is left; the iterators of a model are built over exactly that.')
def start(ck):
    R = roles(ck)
    fr = frontier(ck)
    cs = [f for f in ck.fx.fns.values() if short(f['q']) == IT + '::DFSIterator' and
          f.get('body') is not None and len(f['params']) == 1 and '*' in f['params'][0]['t']]
    for f in cs:
        a = ('param', 0, f['params'][0]['n'])
        for p in ck.paths(f, join=False):
            push = [e for e in p.events if e.kind == 'call' and last(e.q) in PUT]
            nn = p.facts.get(('nn', a))
            if nn is False:
                ck.req(not push, 'no root', 'iterating nothing visits %s' % [
                    show(x) for e in push for x in e.args], f)
            else:
                ck.req(len(push) == 1 and push[0].args == (a,), 'first feature',
                       'iteration starts with %s' % ([show(x) for e in push for x in e.args]
                                                     or 'nothing'), f)
    for f in ck.fns(V + 'FeatureModel::begin'):
        for p in ck.paths(f, join=False):
            ck.req(p.ret == ('fld', THIS, R.of['root']), 'begin', 'starts at %s' % show(p.ret), f)
    for f in ck.fns(V + 'FeatureModel::end'):
        for p in ck.paths(f, join=False):
            r = ('fld', THIS, R.of['root'])
            par = ('fld', r, R.of['parent'])
            if p.facts.get(('nn', par)):
                continue                          # the root has no parent
            ck.req(p.ret == NULL, 'end', 'ends at %s' % show(p.ret), f)


@rule('P27', 'step', 'Each step of the ordered iteration takes the current feature and '
      'adds every feature directly below it, through groups, exactly once and in the '
      'order of the names, and nothing else.')
def step(ck):
    R = roles(ck)
    fr = frontier(ck)
    cur = ('back', fr)
    some = 0
    fs = [f for f in ck.fns(IT + '::operator++')]
    for f in fs:
        en = Engine(ck.fx, join=False, mark_loops='ret')
        for p in ck.paths(f, eng=en):
            fs = ufacts(p)
            if p.kind != 'ret' or fs is None:
                continue
            p = Clean(p, fs)
            em = p.facts.get(('empty', fr))
            evs = [e for e in p.events if e.kind == 'call' and e.obj is not None and
                   e.obj == fr]
            if em:
                ck.req(not evs, 'finished iteration', 'stepping beyond the end changes the '
                       'iterator', f)
                continue
            if em is None:
                ck.bad('finished iteration', 'the end of the iteration is not checked', f)
                continue
            pops = [e for e in evs if last(e.q) in ('pop', 'pop_back')]
            push = [e for e in evs if last(e.q) in PUT]
            ck.req(len(pops) == 1 and not pops[0].loops and all(
                p.events.index(pops[0]) < p.events.index(e) for e in push), 'current feature',
                'the current feature is not removed exactly once before others are added', f)
            if p.facts.get(('nn', cur)) is False:
                ck.req(not push, 'nothing', 'adds features of nothing', f)
                continue
            K = [a[1] for a in p.facts if a[0] == 'empty' and a[1][0] == 'kids' and a[1][2] == cur]
            if not K:
                ck.bad('features below', 'the features below the current one are not added', f)
                continue
            K = K[0]
            ck.req(last(K[1]) == 'Feature' and K[3] == ('int', -1), 'features below',
                   'only %s are visited' % show(K), f)
            # sets of visited features contain only the current one and before
            V0 = {e.obj for e in p.events if e.kind == 'call' and e.obj is not None and
                  e.obj[0] == 'fld' and e.obj != fr and last(e.q) in PUT}
            for e in p.events:
                if e.kind == 'call' and e.obj in V0 and last(e.q) in PUT:
                    ck.req(e.args == (cur,), 'visited features', '%s is remembered as visited'
                           % [show(x) for x in e.args], e)
            srcs = [K]                            # containers with the features below
            for e in p.events:
                if e.kind == 'call' and last(e.q) in PUT and e.obj is not None and e.obj != fr \
                        and e.args and e.args[-1] == ('elem', K) and \
                        (e.obj[0] == 'new' or e.obj[0] == 'var'):
                    srcs.append(e.obj)
            for a, v in p.facts.items():
                if a[0] == 'empty' and a[1][0] == 'new' and a[1] not in srcs and \
                        p.facts[('empty', K)] is False:
                    ck.bad('all features below', 'not all features below are added', f)
            for e in p.events:
                if e.kind in ('brk', 'lret') and any(same_c(e.args[0], s) for s in srcs):
                    ck.bad('all features below', 'not all features below are added', e)
            if p.facts[('empty', K)]:
                continue
            if any(p.facts.get(('empty', s)) for s in srcs[1:]):
                continue                          # contradiction
            for e in push:
                ck.req(e.args and e.args[-1][0] == 'elem' and any(
                    same_c(e.args[-1][1], s) for s in srcs), 'only features below',
                    '%s is added' % [show(x) for x in e.args], e)
            seen = [v for a, v in p.facts.items() if a[0] == 'contains' and
                    a[2][0] == 'elem' and any(same_c(a[2][1], s) for s in srcs) and
                    a[1] != fr]
            if seen and all(seen):
                ck.req(not push, 'once', 'a visited feature is added again', f)
            else:
                some += 1
                ck.req(len(push) == 1, 'all features below', 'a feature below is added %d '
                       'times' % len(push), f)
            # order of the names
            for e in p.events if push else ():
                if e.kind == 'call' and last(e.q) in ('upper_bound', 'lower_bound', 'sort') and \
                        len(srcs) > 1 and any(a == ('iter', srcs[-1]) for a in e.args):
                    lam = [a for a in e.args if a[0] == 'lambda']
                    fw = [x for x in push if x.loops and same_c(x.loops[-1], srcs[-1])]
                    if not lam or not fw:
                        ck.undec('order of names', 'comparison of the names')
                        continue
                    A, B = ('sym', 'A'), ('sym', 'B')
                    for q in en.lambda_paths(en.lambdas[lam[0][1]][0], [A, B]):
                        d = name_less(q.ret, A, B, R.of['fname'])
                        if d is None:
                            ck.undec('order of names', 'comparison %s' % show(q.ret))
                        else:
                            ck.req(d is False, 'order of names', 'features with the same parent '
                                   'are visited against the order of features', e)
    ck.need(some, 'no step adds features')


def same_c(a, b):
    strip = lambda t: t[1] if t and t[0] in ('iter', 'ver', 'var') and len(t) > 1 and \
        isinstance(t[1], tuple) else t
    return a == b or strip(a) == strip(b)


@rule('P27', 'access', 'Iterators yield their current feature and are equal exactly if '
      'they stand at the same feature or both at the end.')
def access(ck):
    fr = frontier(ck)
    R = roles(ck)
    for f in ck.fns(IT + '::operator*') + ck.fns(IT + '::operator->'):
        for p in ck.paths(f, join=False):
            em = p.facts.get(('empty', fr))
            r = p.ret[1] if p.ret[0] == 'addr' else p.ret
            if em:
                ck.req(r == NULL, 'current feature', 'the end yields %s' % show(r), f)
            else:
                ck.req(r == ('back', fr), 'current feature', 'yields %s' % show(r), f)
    for f in ck.fns(IT + '::operator=='):
        o = ('param', 0, f['params'][0]['n'])
        fo = ('fld', o, fr[2])
        for p in ck.paths(f, join=False):
            a, b = p.facts.get(('empty', fr)), p.facts.get(('empty', fo))
            site = 'equality'
            if p.ret in (TRUE, FALSE):
                v = p.ret == TRUE
                eqs = [w for x, w in p.facts.items() if x[0] in ('eq', 'nn') and
                       mentions(x, lambda t: t == ('back', fr)) and
                       mentions(x, lambda t: t == ('back', fo))]
                if a and b:
                    ck.req(v, site, 'two finished iterators differ', f)
                elif a or b:
                    if a is not None and b is not None:
                        ck.req(not v, site, 'a finished iterator equals another one', f)
                    elif v:
                        ck.bad(site, 'a finished iterator equals another one', f)
                elif eqs:
                    ck.req(v == eqs[0], site, 'equality is reversed', f)
                else:
                    ck.bad(site, 'always %s' % show(p.ret), f)
            else:
                ok = mentions(p.ret, lambda t: t == ('back', fr)) and \
                    mentions(p.ret, lambda t: t == ('back', fo))
                neg = p.ret[0] == 'not' or p.ret[0] == 'op' and p.ret[1] == '!='
                if ok and a is False and b is False:
                    ck.req(not neg, site, 'equality is reversed', f)
                else:
                    ck.undec(site, 'comparison %s' % show(p.ret), f)
    for f in ck.fns(MIT + '::operator*') + ck.fns(MIT + '::operator->'):
        for p in ck.paths(f, join=False):
            t = [x for x in walk(p.ret) if x and x[0] == 'fld' and x[1] == THIS]
            ck.req(len(t) == 1, 'unordered: current feature', 'yields %s' % show(p.ret), f)
    for f in ck.fns(MIT + '::operator++'):
        for p in ck.paths(f, join=False):
            n = [e for e in p.events if e.kind == 'call' and last(e.q) == 'operator++' or
                 e.kind == 'write']
            ck.req(len(n) == 1 and not n[0].loops, 'unordered: step',
                   'advances %d times' % len(n), f)
    for f in ck.fns(V + 'FeatureModel::unorderedFeatures'):
        for p in ck.paths(f, join=False):
            F = ('fld', THIS, R.of['features'])
            r = p.ret
            ok = r == F
            if r[0] == 'rng':
                ok = mentions(r[1], lambda t: t == ('iter', F)) and \
                    mentions(r[2], lambda t: t == ('end', F))
            ck.req(ok, 'unordered: range', 'iterates over %s' % show(r), f)


def collection(t, kind):
    """the collection of this object at whose start ('iter') or end a term stands"""
    while t and t[0] == 'call' and 'operator ' in t[1] and t[2]:
        t = t[2]                                 # conversion to the constant iterator
    if t and t[0] == 'new' and len(t[2]) == 1:
        t = t[2][0]
    if t and t[0] == kind and t[1][0] in ('fld', 'edges') and t[1][1] == THIS:
        return t[1]
    return None


def places(t):
    return {x[1] for x in walk(t) if x and x[0] in ('iter', 'end') and
            x[1][0] in ('fld', 'edges') and x[1][1] == THIS}


@rule('P27', 'ranges', 'Every range and every pair of begin and end that a model, node, feature '
      'or configuration gives covers the whole collection.')
def ranges(ck):
    R = roles(ck)
    root = ('fld', THIS, R.of['root'])
    n = 0
    pairs = {}
    for f in ck.fx.fns.values():
        nm = last(f['q'])
        if f.get('body') is None or f['params'] or not f.get('cls') or \
                '/include/vara/' not in f['file']:
            continue
        lo = nm.lower()
        side = 'iter' if lo.endswith('begin') else 'end' if lo.endswith('end') and \
            'iterator' in f['rt'].lower() else None
        if 'iterator_range' not in f['rt'] and not side:
            continue
        site = '%s%s' % (short(f['q'])[len(V):] if short(f['q']).startswith(V) else
                         short(f['q']), ' const' if f.get('const') else '')
        try:
            ps = ck.paths(f, join=False)
        except Undecided as u:
            ck.undec(site, str(u))
            continue
        for p in ps:
            r = unk(p.ret)
            if p.kind != 'ret':
                continue
            if side:
                c = collection(r, side)
                o = collection(r, 'end' if side == 'iter' else 'iter')
                if c:
                    pairs.setdefault((f['cls'], lo.replace('begin', '').replace('end', ''),
                                      bool(f.get('const'))), {})[side] = (c, f)
                elif o:
                    n += 1
                    ck.bad(site, 'stands at the %s' % ('end' if side == 'iter' else 'start'), f)
                elif places(r):
                    n += 1
                    ck.bad(site, 'stands at %s' % show(r), f)
                continue
            if r[0] in ('fld', 'edges') and r[1] == THIS:
                n += 1
                ck.good(site)
            elif r[0] == 'rng' and r[1] == root:
                n += 1
                par = ('fld', root, R.of['parent'])
                ck.req(r[2] == NULL or p.facts.get(('nn', par)) and r[2] == par, site,
                       'ends at %s' % show(r[2]), f)
            elif r[0] == 'rng':
                a, b = collection(r[1], 'iter'), collection(r[2], 'end')
                n += 1
                if a and a == b:
                    ck.good(site)
                elif places(r[1]) | places(r[2]) or mentions(r, lambda t: t == root):
                    ck.bad(site, 'covers %s' % show(r), f)
                else:
                    ck.undec(site, 'range %s' % show(r))
    for (c, nm, k), v in sorted(pairs.items()):
        if len(v) == 2:
            n += 1
            ck.req(v['iter'][0] == v['end'][0], 'begin and end of %s' % c[len(V):],
                   'of different collections', v['end'][1])
    ck.need(n, 'no ranges')


@rule('P27', 'children', 'The search for nodes below a node returns every node of the '
      'wanted kind that is reached without passing another one, to the requested depth.')
def children(ck):
    fs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
          short(f['q']) == NODE + '::getChildren' and f.get('targs')]
    ck.need(fs, 'search for children')
    for f in fs:
        T = f['targs'][0]
        site = 'below (%s)' % last(T)
        D = ('param', 0, f['params'][0]['n'])
        rec = set()
        for p in clean(ck, f, mark_loops='ret'):
            search(ck, site, p, THIS, D, T, p.ret, rec)
        for h in rec:
            for g in ck.fns(h):
                if (g.get('targs') or [None])[0] != T:
                    continue
                ix = {}
                for i, q in enumerate(g['params']):
                    t = q['t']
                    k = 'D' if t == 'int' else 'S' if 'Set' in t or 'vector' in t else \
                        'N' if 'FeatureTreeNode' in t else None
                    ix[k] = ('param', i, q['n'])
                if not {'D', 'N'} <= set(ix):
                    ck.undec(site, 'parameters of %s' % h)
                    continue
                for p in clean(ck, g, mark_loops='ret'):
                    search(ck, site, p, ix['N'], ix['D'], T, ix.get('S') or p.ret, set())


def search(ck, site, p, N, D, T, S, rec):
    if p.kind != 'ret':
        return
    C = ('edges', N)
    el = ('elem', C)
    z = p.facts.get(('nn', D))
    zero = z is False or p.facts.get(('eq', D, ('int', 0))) is True
    adds = [e for e in p.events if e.kind == 'call' and e.obj == S and last(e.q) in PUT]
    recs = [e for e in p.events if e.kind == 'call' and e.obj != S and
            any(a == el for a in e.args)]
    for e in recs:
        if e.obj is None:
            rec.add(short(e.q))
    em = p.facts.get(('empty', C))
    if zero:
        ck.req(not adds and not recs and em is None, site + ': depth', 'nodes beyond the '
               'requested depth are returned', p.events[0] if p.events else '')
        return
    if em is None:
        ck.bad(site + ': depth', 'the search ends before the requested depth: %s' % ', '.join(
            ('' if v else 'not ') + show(a) for a, v in p.facts.items()), '')
        return
    for e in p.events:
        if e.kind in ('brk', 'lret') and same_c(e.args[0], C):
            ck.bad(site + ': all', 'not all nodes are searched', e)
    if em:
        return
    isa = [v for a, v in p.facts.items() if a[0] == 'isa' and a[2] == el and
           last(a[1]) == last(T)]
    if last(T) == 'FeatureTreeNode' and isa == [False]:
        return
    if p.facts.get(('nn', el)) is False:
        return
    if isa and isa[0]:
        known = p.facts.get(('contains', S, el))
        ck.req(len(adds) == 1 and adds[0].args == (el,) or known and not adds, site,
               'a matching node is not returned', adds[0] if adds else '')
        ck.req(not recs, site + ': first', 'nodes below a matching node are returned',
               recs[0] if recs else '')
    elif isa or last(T) == 'FeatureTreeNode':
        ck.req(not adds, site + ': kind', 'a node of another kind is returned',
               adds[0] if adds else '')
        ok = recs and any(a in (('op', '-', D, ('int', 1)), ('op', '+', D, ('int', -1)))
                          for a in recs[0].args)
        ck.req(len(recs) == 1, site + ': through', 'nodes below another node are not searched '
               'once', recs[0] if recs else '')
        if recs and S[0] in ('new', 'param') and not any(a == S for a in recs[0].args):
            ck.undec(site, 'result of the search below')
        if recs:
            ck.req(ok, site + ': depth', 'the depth is not counted', recs[0])
    elif adds:
        ck.bad(site + ': kind', 'nodes are returned regardless of their kind', adds[0])


@rule('P27', 'parent', 'The parent feature of a feature is the nearest feature above it.')
def parent(ck):
    R = roles(ck)
    f = ck.fn(GPF)
    par = ('fld', THIS, R.of['parent'])
    some = 0
    for p in ck.paths(f, join=False, mark_loops='ret'):
        isf = [v for a, v in p.facts.items() if a[0] == 'isa' and a[2] == par and
               last(a[1]) == 'Feature']
        isr = [v for a, v in p.facts.items() if a[0] == 'isa' and a[2] == par and
               last(a[1]) == 'Relationship']
        if p.facts.get(('nn', par)) is False:
            ck.req(p.ret == NULL, 'root', 'the parent of the root is %s' % show(p.ret), f)
        elif isf and isf[0] or isr and isr[0] is False:
            some += 1
            ck.req(p.ret == par, 'direct parent', 'the parent of a feature below a feature '
                   'is %s' % show(p.ret), f)
        elif isf or isr:
            nxt = ('fld', par, R.of['parent'])
            up = [e for e in p.events if e.kind == 'set' and e.args and e.args[0] == nxt] or \
                mentions(p.ret, lambda t: t == nxt) or \
                any(mentions(a, lambda t: t == nxt) for a in p.facts)
            ck.req(bool(up), 'through groups', 'the search does not go on above a group', f)
    ck.need(some, 'parents are not returned')


@rule('P27', 'compare', 'A feature is before those below it and before those that follow '
      'its ancestors in the order of the names; the comparison is never true both ways.')
def compare(ck):
    R = roles(ck)
    f = ck.fn(LT)
    O = ('param', 0, f['params'][0]['n'])
    ps = ck.paths(f, join=False, mark_loops='ret', opaque=[GPF])
    A = B = None
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and last(e.q) in PUT and e.obj and e.obj[0] == 'new' and e.args:
                if e.args[-1] == THIS:
                    A = e.obj
                elif e.args[-1] == O:
                    B = e.obj
    if not A or not B or A == B:
        raise Undecided('ancestors of the features')
    for c, e in once_only(ps):
        ck.bad('common ancestors', 'the search for the first difference ends after one step', f)

    def base(c):
        while c[0] == 'ver':
            c = c[1]
        return c

    def version(c):
        return c[2] if c[0] == 'ver' else 0
    n = 0
    for p in ps:
        if p.kind != 'ret' or p.facts.get(('nn', THIS)) is False or p.facts.get(('nn', O)) is False:
            continue
        up = {}
        for e in p.events:
            if e.kind == 'set' and e.args and e.args[0][0] == 'call' and \
                    short(e.args[0][1]) == GPF:
                up[e.args[0][2]] = e
        for x, c in ((THIS, A), (O, B)):
            mk = [e for e in p.events if e.kind == 'call' and e.obj == c and last(e.q) in PUT]
            ck.req(bool(mk) and x in up, 'ancestors', 'not all ancestors are considered', f)
        pops = {c: len([e for e in p.events if e.kind == 'call' and e.obj and
                        base(e.obj) == c and last(e.q) in ('pop', 'pop_back')]) for c in (A, B)}
        ck.req(pops[A] == pops[B], 'common ancestors', 'the ancestors of both features are '
               'not skipped alike', f)
        alike = [v for a, v in p.facts.items() if a[0] == 'eq' and v and
                 {side(a[1], A, THIS, base), side(a[2], B, O, base)} == {True} or
                 a[0] == 'eq' and v and {side(a[2], A, THIS, base),
                                         side(a[1], B, O, base)} == {True}]
        if pops[A]:
            ck.req(alike, 'common ancestors', 'different ancestors are skipped', f)
        # latest knowledge about emptiness
        em = {}
        for a, v in p.facts.items():
            if a[0] == 'empty' and base(a[1]) in (A, B):
                k = base(a[1])
                if k not in em or version(a[1]) >= em[k][0]:
                    em[k] = (version(a[1]), v)
        a, b = (em.get(c, (0, None))[1] for c in (A, B))
        r = p.ret
        if r[0] == 'not' and r[1][0] == 'empty' and base(r[1][1]) in (A, B):
            n += 1
            ck.req(a is True and base(r[1][1]) == B, 'ancestor', 'a feature is not before those '
                   'below it', f)
        elif r[0] == 'empty' and base(r[1]) in (A, B):
            n += 1
            ck.bad('ancestor', 'a feature is not before those below it', f)
        elif r in (TRUE, FALSE):
            n += 1
            if r == TRUE:
                ck.req(a is True and b is False, 'ancestor', 'a feature is before one that is '
                       'not below it', f)
            else:
                ck.req(b is True, 'ancestor', 'a feature is not before those below it', f)
        else:
            d = sides(r, A, B, THIS, O, base, R.of['fname'])
            if d is None:
                ck.undec('names', 'comparison %s' % show(r), f)
                continue
            n += 1
            ck.req(pops[A] or not alike, 'names', 'the name of a common ancestor is compared '
                   'with itself', f)
            if pops[A]:
                ck.req(not mentions(r, lambda t: t in (THIS, O)), 'names', 'the names of the '
                       'features are compared instead of those of their ancestors', f)
            ck.req(d, 'names', 'features are compared against the order of their names', f)
    ck.need(n, 'results of the comparison')


def side(t, c, x, base):
    return any(s == x or s and s[0] in ('back', 'front', 'elem') and base(s[1]) == c
               for s in walk(t) if s)


def sides(r, A, B, x, o, base, fname):
    l = None
    if r[0] == 'not':
        d = sides(r[1], A, B, x, o, base, fname)
        return False if d is not None else None   # true both ways for equal names
    if r[0] == 'call' and last(r[1]) in ('operator<', 'operator>', 'operator<=', 'operator>='):
        l = (last(r[1])[8:],) + (((r[2],) if r[2] else ()) + tuple(r[3]))
    elif r[0] == 'op' and r[1] in ('<', '>', '<=', '>='):
        l = r[1:]
    if not l or len(l) != 3 or not all(
            mentions(z, lambda s: s[0] == 'fld' and s[2] == fname) for z in l[1:]):
        return None
    if '=' in l[0]:
        return False                             # true both ways for equal names
    p = (side(l[1], A, x, base), side(l[1], B, o, base))
    q = (side(l[2], A, x, base), side(l[2], B, o, base))
    if p == (True, False) and q == (False, True):
        return l[0] == '<'
    if p == (False, True) and q == (True, False):
        return l[0] == '>'
    return None


@rule('P27', 'ordered-vector', 'The ordered vector inserts each feature at the position '
      'given by the order of features.')
def ordered(ck):
    q = V + 'deprecated::OrderedFeatureVector::insert'
    n = 0
    for f in ck.fns(q):
        if len(f['params']) != 1 or last(f['params'][0]['t'].replace('*', '').strip()) != 'Feature':
            ps = ck.paths(f, join=False, mark_loops='ret')
            ck.req(not cut_short(ps), 'ranges', 'only the first feature of a range is inserted', f)
            for p in ps:
                add = [e for e in p.events if e.kind == 'call' and last(e.q) in PUT | {'insert'} and
                       e.args and e.loops]
                if any(e.kind == 'iter' for e in p.events):
                    ck.req(add, 'ranges', 'a feature of a range is not inserted', f)
            continue
        F = ('param', 0, f['params'][0]['n'])
        en = Engine(ck.fx, join=False, opaque=[LT])
        for p in ck.paths(f, eng=en):
            add = [e for e in p.events if e.kind == 'call' and e.obj and e.obj[0] == 'fld' and
                   e.obj[1] == THIS and last(e.q) in PUT]
            ck.req(len(add) == 1 and add[0].args[-1] == F, 'inserted', 'inserts %s' % [
                show(x) for e in add for x in e.args[-1:]], f)
            for e in add:
                pos = e.args[0]
                if pos[0] != 'call' or last(pos[1]) not in ('upper_bound', 'lower_bound'):
                    ck.undec('position', 'inserted at %s' % show(pos), f)
                    continue
                a = pos[3]
                n += 1
                ck.req(a[:3] == (('iter', e.obj), ('end', e.obj), F), 'position',
                       'searched in %s' % show(pos), e)
                lam = [x for x in a if x[0] == 'lambda']
                if not lam:
                    ck.undec('order', 'comparison of features')
                    continue
                A, B = ('sym', 'A'), ('sym', 'B')
                en.opaque = set(getattr(en, 'opaque', ())) | {LT}
                for r in en.lambda_paths(en.lambdas[lam[0][1]][0], [A, B]):
                    t = r.ret
                    ok = None
                    if t[0] == 'call' and short(t[1]) == LT:
                        ok = (t[2],) + tuple(t[3]) == (A, B)
                    elif t[0] == 'op' and t[1] in '<>':
                        ok = (t[2], t[3]) == ((A, B) if t[1] == '<' else (B, A))
                    if ok is None:
                        ck.undec('order', 'comparison %s' % show(t))
                    else:
                        ck.req(ok, 'order', 'features are inserted against their order', e)
    ck.need(n, 'insertion of a feature')
