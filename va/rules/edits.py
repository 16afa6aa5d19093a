"""Functions that edit a model in one call (P37)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V

TRANS = V + 'FeatureModelTransaction'
SINGLE = ('addFeature', 'removeFeature', 'addRelationship', 'removeRelationship', 'setCommit')
MANY = ('addFeatures',)
EDITS = {'addFeature', 'addFeatureImpl', 'removeFeature', 'removeFeatureImpl', 'addRelationship',
         'removeRelationship', 'setCommit', 'setName', 'setPath', 'setRoot', 'addConstraint',
         'addChild', 'setLocation'}


def free(ck, name):
    fs = [f for f in ck.fx.by_q.get(V + name, []) if f.get('body') is not None and
          not f.get('cls') and f['params'] and 'FeatureModel &' in f['params'][0]['t']]
    return [f for f in fs if not any(t in f['params'][0]['t'] for t in ('Transaction',))]


def engine(ck):
    return Engine(ck.fx, join=False, mark_loops=True, max_paths=20000,
                  inline=lambda g: 'Transaction' not in (g.get('cls') or
                                                         g['q'].rsplit('::', 1)[0]))


def bare(t):
    """a term without conversions and moves"""
    t = unk(t)
    while t and (t[0] in ('conv', 'addr', 'val') and len(t) > 1 and isinstance(t[1], tuple) or
                 t[0] == 'new' and len(t[2]) == 1 and ('variant' in t[1] or 'string' in t[1] or
                                                       'unique_ptr' in t[1])):
        t = t[2][0] if t[0] == 'new' else t[1]
    return t


def edits(p, fm):
    """(transaction term, edit events, commit events, abort events) of a path"""
    opened = {}
    for e in p.events:
        if e.kind == 'call' and last(e.q) == 'openTransaction':
            opened[unk(e.res)] = e
    ev = {'edit': [], 'commit': [], 'abort': []}
    for i, e in enumerate(p.events):
        if e.kind != 'call' or e.obj is None or not short(e.q).startswith(TRANS):
            continue
        n = last(e.q)
        k = n if n in ('commit', 'abort') else 'edit' if n in EDITS else None
        if k:
            ev[k].append((i, e))
    return opened, ev


def common(ck, f, p, site):
    """the transaction of a path works on the given model and is not aborted"""
    fm = ('param', 0, f['params'][0]['n'])
    opened, ev = edits(p, fm)
    ok = True
    for t, e in opened.items():
        if bare(e.args[0]) != fm:
            ck.bad(site, 'edits %s' % show(e.args[0]), e)
            ok = False
    if ev['abort']:
        ck.bad(site, 'the edit is aborted', ev['abort'][0][1])
        ok = False
    if ev['commit'] and ev['edit'] and ev['commit'][0][0] < ev['edit'][-1][0]:
        ck.bad(site, 'the commit precedes the edit', ev['commit'][0][1])
        ok = False
    for e in effects(ck, p):
        if not mentions(e.obj, lambda t: t[0] == 'new'):
            ck.bad(site, 'the model is changed outside of a transaction', e.ev)
            ok = False
    return ev if ok else None


def given(ck, site, e, want):
    """the arguments of an edit are exactly the wanted terms"""
    args = [bare(a) for a in e.args]
    left = list(args)
    for w in want:
        if w in left:
            left.remove(w)
        elif any(mentions(a, lambda t: t == w) and a[0] != 'not' for a in left):
            ck.undec(site, '%s is passed as %s' % (show(w), [show(a) for a in args]))
            return
        else:
            ck.bad(site, '%s is not passed on (%s)' % (show(w), [show(a) for a in args]), e)
            return
    if left and not all(a[0] in ('bool', 'null', 'lit') for a in left):
        ck.undec(site, 'additional arguments %s' % [show(a) for a in left])
        return
    ck.good(site)


@rule('P37', 'single-edits', 'Each function that makes one edit requests exactly this edit '
      'with exactly its arguments on its model and does not abort it.')
def single(ck):
    n = 0
    for name in SINGLE:
        for f in free(ck, name):
            want = [('param', i, q['n']) for i, q in enumerate(f['params'])][1:]
            for p in ck.paths(f, eng=engine(ck)):
                if p.kind != 'ret':
                    continue
                n += 1
                ev = common(ck, f, p, name)
                if ev is None:
                    continue
                if len(ev['edit']) != 1:
                    ck.bad(name, '%d edits are requested' % len(ev['edit']), f)
                    continue
                e = ev['edit'][0][1]
                if last(e.q).replace('Impl', '') != name:
                    ck.bad(name, 'requests %s' % last(e.q), e)
                    continue
                given(ck, name, e, want)
    ck.need(n, 'no functions that edit a model in one call')


@rule('P37', 'edit-lists', 'The function that adds several features requests the addition of '
      'each given feature below its given parent, without stopping early.')
def lists(ck):
    for name in MANY:
        fs = free(ck, name)
        ck.need(fs, name)
        for f in fs:
            L = ('param', 1, f['params'][1]['n'])
            for p in ck.paths(f, eng=engine(ck)):
                if p.kind != 'ret':
                    continue
                ev = common(ck, f, p, name)
                if ev is None:
                    continue
                es = [e for _, e in ev['edit']]
                em = p.facts.get(('empty', L))
                if em is True:
                    ck.req(not es, name, 'an edit is requested without features', f)
                    continue
                if em is None:
                    ck.undec(name, 'how the features are visited')
                    continue
                if any(e.kind in ('brk', 'lret') for e in p.events):
                    ck.bad(name, 'stops before all features are added', f)
                    continue
                if len(es) != 1:
                    ck.bad(name, '%d additions are requested for a feature' % len(es), f)
                    continue
                e = es[0]
                el = [t for a in e.args for t in walk(a) if t and t[0] == 'elem']
                if not el and any(mentions(a, lambda t: t[0] == 'at' and t[1] == L)
                                  for a in e.args):
                    ck.undec(name, 'features are visited by index')
                    continue
                if not el or any(unk(t[1]) != L for t in el):
                    ck.bad(name, 'adds %s' % [show(a) for a in e.args], e)
                    continue
                a = [bare(x) for x in e.args]
                g = [x[2].rsplit('::', 1)[-1] if x[0] == 'fld' else
                     ('first', 'second')[int(x[1])] if x[0] == 'tupget' and str(x[1]) in '01'
                     else None for x in a]
                if g[:2] == ['first', 'second']:
                    ck.good(name)
                elif None in g[:1] and len(a) >= 1 and a[0][0] not in ('elem', 'fld'):
                    ck.undec(name, 'adds %s' % [show(x) for x in a])
                else:
                    ck.bad(name, 'the parent of a feature becomes %s' % (
                        show(a[1]) if len(a) > 1 else 'the default'), e)


def many_fn(ck):
    fs = [f for f in free(ck, 'removeFeatures') if len(f['params']) == 4]
    ck.need(fs, 'removeFeatures')
    return fs[0]


def part(p):
    es = [e for e in p.events if e.kind == 'call' and
          last(e.q) in ('partition', 'stable_partition')]
    return es[0] if len(es) == 1 else None


def sames(p, a, b):
    """whether the path knows that two iterators are equal, or differ"""
    a, b = unk(a), unk(b)
    out = set()
    for f, v in p.facts.items():
        f = unk(f)
        if f[0] == 'eq' and {f[1], f[2]} == {a, b}:
            out.add(v)
        if f[0] == 'nn' and f[1][0] == 'call' and last(f[1][1]) in ('operator==', 'operator!='):
            xs = ([f[1][2]] if f[1][2] else []) + list(f[1][3])
            if len(xs) == 2 and {unk(x) for x in xs} == {a, b}:
                out.add(v == (last(f[1][1]) == 'operator=='))
    return out


def same(p, a, b):
    s = sames(p, a, b)
    return s.pop() if len(s) == 1 else False if s else None


def above(ck, f, F, q, fs, ret, pol):
    """the decision on a feature with children that is to be removed recursively"""
    what = 'features above others'

    def child(t):
        """a feature directly below"""
        return t[0] in ('elem', 'back', 'front', 'kid', 'iter') and mentions(
            t[1:], lambda s: s[0] in ('kids', 'edges') and F in s[1:]) or \
            t[0] == 'elem' and t[1] == F

    def deeper(t):
        """what is below such a feature"""
        return t[0] in ('kids', 'edges') and mentions(t[1:], child)

    calls = [e for e in q.events if e.kind == 'call']
    si = [e for e in calls if last(e.q) in ('set_intersection', 'includes')]
    for e in si:
        if mentions(tuple(unk(a) for a in e.args), lambda t: t[0] == 'kids' and t[2] == F):
            ck.bad(what, 'looks only at the features directly below (and at unordered ones)', e)
            return
    asked = {a: v for a, v in fs.items() if a[0] == 'contains' and mentions(a[2], child)}
    again = {}
    for a, v in fs.items():
        if a[0] == 'nn' and a[1][0] == 'call' and mentions(a[1][3], child):
            again[a[1]] = v
    for e in calls:
        if e.q.startswith(V) and e.res is not None and mentions(
                tuple(unk(a) for a in e.args), child) and last(e.q).find('operator'):
            again.setdefault(unk(e.res), None)
    down = any(mentions(tuple(unk(x) for x in list(e.args) + ([e.obj] if e.obj else [])), deeper)
               for e in q.events if e.args) or any(mentions(a, deeper) for a in fs)
    if ret not in (TRUE, FALSE):
        ck.undec(what, 'selection by %s' % show(ret))
        return
    if not asked and not again and not down:
        usual = (('empty', ('edges', F)), ('nn', F), ('nn', ('fld', F, 'Parent')))
        if si or any(a not in usual and (a[0] not in ('holds', 'contains') and mentions(
                a, lambda t: t == F) or mentions(a, lambda t: t[0] in (
                    'elem', 'iter', 'back'))) for a in fs):
            ck.undec(what, 'selection of %s' % [show(a) for a in fs])
        else:
            ck.bad(what, 'selected although other given features are below' if ret == TRUE
                   else 'never selected', f)
        return
    if any(asked.values()):
        ck.req(ret == FALSE, what, 'selected although another given feature is below', f)
        return
    if ret == TRUE:
        if not asked and not again:
            ck.undec(what, 'what is looked for')
            return
        if not again and not down:
            ck.bad(what, 'looks only at the features directly below', f)
            return
        if not asked and again:
            ck.undec(what, 'what is looked for')
            return
        first = [e for e in q.events if e.kind in ('lret', 'brk') and e.args and mentions(
            unk(e.args[0]), lambda t: t in (('edges', F),) or t[0] == 'kids' and t[2] == F)]
        if first:
            ck.bad(what, 'selected although not all features below are looked at', f)
            return
        sets = {a[1] for a in asked}
        for t, v in again.items():
            if t[0] == 'call' and len(t) > 3 and not any(mentions(x, lambda s: s in sets)
                                                        for x in t[3]):
                ck.bad(what, 'deeper features are compared with %s' % [show(x) for x in t[3]], f)
                return
            if v is not None:
                pol.add((t[1], v))
        ck.good(what)
    else:
        vs = {(t[1], not v) for t, v in again.items() if v is not None}
        if vs:
            pol |= vs
            ck.good(what)
        elif down or again:
            ck.undec(what, 'why a feature is not selected')
        else:
            ck.bad(what, 'not selected although no other given feature is below', f)


@rule('P37', 'removable', 'A feature is removed in the current round exactly if the model has '
      'it, it is not the root, and it has no children or, when removing recursively, no other '
      'given feature is below it.')
def removable(ck):
    R = roles(ck)
    f = many_fn(ck)
    rec = [('param', i, q['n']) for i, q in enumerate(f['params']) if q['t'] == 'bool'][0]
    en = engine(ck)
    en.mark_loops = 'ret'
    en.max_paths = 40000
    ps = ck.paths(f, eng=en)
    pe = [(p, part(p)) for p in ps if part(p)]
    if not pe:
        raise Undecided('how the features to remove are selected')
    p0, e0 = pe[0]
    lam = [a for a in e0.args if a[0] == 'lambda']
    if len(lam) != 1:
        raise Undecided('condition of the selection')
    C = ('cand',)
    pol = set()                        # what the search for others says on the selected
    pre = set(map(unk, p0.facts))
    for q in en.lambda_paths(en.lambdas[lam[0][1]][0], [C], st=p0.st):
        if q.kind != 'ret':
            continue
        fs = {}
        imp = False
        for a, v in q.facts.items():
            a = unk(a)
            if a in pre and not mentions(a, lambda t: t == C):
                continue
            if fs.get(a, v) != v:
                imp = True
            fs[a] = v
        if imp:
            continue
        # the feature a candidate stands for
        cand = set()
        for a in fs:
            for t in walk(a):
                if t and (t[0] == 'get' and t[2] == C and '*' in t[1] or
                          t[0] in ('mapent', 'feat', 'mapval') and mentions(
                              t, lambda s: s == C)):
                    cand.add(t)
        for e in q.events:
            if e.kind == 'call' and last(e.q) == 'set_intersection':
                for t in walk(e.args):
                    if t and t[0] == 'kids':
                        cand.add(t[2])
        miss = any(a[0] == 'contains' and v is False and mentions(a[2], lambda t: t == C)
                   and a[1][0] == 'fld' and a[1][2] == R.of['features'] for a, v in fs.items())
        if miss:
            F = None
        elif len(cand) == 1:
            F = cand.pop()
        else:
            ck.undec('candidates', 'features %s' % [show(t) for t in cand])
            continue
        ex = False if miss else fs.get(('nn', F))
        if ex is None and F is not None and F[0] == 'mapent':
            ex = True
        par = None if F is None else fs.get(('nn', ('fld', F, R.of['parent'])))
        leaf = None if F is None else fs.get(('empty', ('edges', F)))
        r = fs.get(('nn', rec))
        ret = q.ret
        if F is not None and ex and par and leaf is False and r is True:
            above(ck, f, F, q, fs, ret, pol)
            continue
        if ret == TRUE:
            if ex is not True:
                ck.bad('missing features', 'a feature that the model does not have is selected '
                       'for removal', f)
                continue
            if par is not True:
                ck.bad('root', 'the root may be selected for removal', f)
                continue
            ck.good('root')
            if leaf is True:
                ck.good('leaves')
            else:
                ck.bad('features with children', 'selected although %s' % (
                    'removal is not recursive' if leaf is False else
                    'nothing is known of its children'), f)
        elif ret == FALSE:
            if ex is False or par is False:
                ck.good('missing features' if ex is False else 'root')
            elif leaf is True:
                ck.bad('leaves', 'a feature without children is not selected', f)
            elif leaf is False and r is False:
                ck.good('features with children')
            elif leaf is None or r is None:
                ck.bad('features with children', 'not selected without looking at %s' % (
                    'the children' if leaf is None else 'whether removal is recursive'), f)
        else:
            if not (ex and par):
                ck.bad('root', 'the root may be selected for removal', f)
                continue
            ck.undec('selection', show(ret))
    for g in sorted({g for g, _ in pol}):
        asks = False
        # the search has to say the same of the features it meets
        for h in ck.fx.fns.values():
            if h['q'] != g or h.get('body') is None:
                continue
            for p in ck.paths(h, eng=engine(ck)):
                asks = asks or any(unk(a)[0] not in ('nn', 'empty') or unk(a)[1][0] == 'call' and
                                   unk(a)[1][1] != g for a in p.facts)
                met = [v for a, v in p.facts.items() if unk(a)[0] == 'contains' and
                       mentions(unk(a)[2], lambda t: t[0] in ('elem', 'back', 'front', 'param'))]
                if p.kind == 'ret' and any(met) and unk(p.ret) in (TRUE, FALSE):
                    pol.add((g, unk(p.ret) == FALSE))
        ck.req(asks, 'features above others', 'the features below are not compared with others', f)
    ck.req(len({v for _, v in pol}) < 2 or len({g for g, _ in pol}) > 1,
           'features above others', 'selected exactly if other given features are below', f)


def lined(n):
    if isinstance(n, dict):
        return {n['l']} if isinstance(n.get('l'), int) and n.get('k') == 'call' else set().union(
            *(lined(v) for v in n.values()))
    if isinstance(n, (list, tuple)):
        return set().union(set(), *(lined(x) for x in n))
    return set()


@rule('P37', 'rounds', 'Every selected feature is removed as requested, the others are tried '
      'again until nothing can be removed, and those left are returned.')
def rounds(ck):
    f = many_fn(ck)
    P = [('param', i, q['n']) for i, q in enumerate(f['params'])]
    rec = [x for x, q in zip(P, f['params']) if q['t'] == 'bool'][0]
    fm = P[0]
    B, E = [x for x in P if x not in (rec, fm)]
    en = engine(ck)
    en.max_paths = 40000
    seen = {'removed': 0, 'left': 0}
    ps = ck.paths(f, eng=en)
    for c, e in once_only(ps):
        ck.bad('removal', 'only the first selected feature is removed', e)
    for p in ps:
        if p.kind != 'ret':
            continue
        ev = common(ck, f, p, 'removal')
        if ev is None:
            continue
        if p.facts.get(('empty', B)) and same(p, B, E) is False:
            continue                             # there is an element
        e = part(p)
        r = unk(p.ret)
        es = [x for _, x in ev['edit']]
        if e is None:
            if same(p, B, E):
                ck.req(not es and r[0] == 'new' and not r[2], 'no features', 'yields %s' %
                       show(r), f)
            else:
                ck.undec('rounds', 'features that are not partitioned')
            continue
        D = unk(e.res)
        if [unk(a) for a in e.args[:2]] != [B, E]:
            ck.bad('rounds', 'only %s are considered' % [show(a) for a in e.args[:2]], e)
            continue
        none = same(p, D, B)
        if none is True:
            ck.req(not es, 'features left', 'removed although not selected', f)
            if r[0] == 'new' and len(r[2]) >= 2:
                seen['left'] += 1
                ck.req(tuple(r[2][:2]) == (B, E), 'features left', 'returns %s' % show(r), f)
            elif r[0] == 'new' and not r[2] and any(
                    x.kind == 'call' and x.line > e.line and (
                        x.obj is not None and unk(x.obj) == r or mentions(
                            tuple(unk(a) for a in x.args), lambda t: t == r))
                    for x in p.events):
                seen['left'] += 1
                ck.undec('features left', 'how they are collected')
            elif r[0] == 'new' and not r[2]:
                ck.bad('features left', 'are not returned', f)
            else:
                ck.undec('features left', 'returns %s' % show(r))
            continue
        if none is None:
            # never asked: ends only if no features are given
            ck.bad('rounds', 'goes on although no feature can be removed', f)
            continue
        if es and not ev['commit'] and r[0] == 'call':
            lines = {x.line for x in p.events if x.kind == 'call' and last(x.q) ==
                     'openTransaction'}
            top = [n for n in f['body'].get('b', f['body'].get('s', [])) if isinstance(n, dict)] \
                if isinstance(f['body'], dict) else list(f['body'])
            if any(n.get('s') in ('decl', 'var') and lined(n) & lines for n in top
                   if isinstance(n, dict)):
                ck.bad('rounds', 'the next round starts before the features are removed', f)
            else:
                ck.undec('rounds', 'when the features of a round are removed')
        if r[0] == 'call' and short(r[1]) == short(f['q']):
            a = list(r[3])
            ck.req(a[0] == fm and D in a and E in a and rec in a and a.index(D) < a.index(E) and
                   B not in a, 'rounds', 'continues with %s' % [show(x) for x in a], f)
        else:
            ck.bad('rounds', 'the features that were not selected are not tried again', f)
        more = sames(p, B, D)
        it = [x for x in p.events if x.kind == 'iter' and x.args and x.args[0] and
              x.args[0][0] == 'while']
        if es:
            seen['removed'] += 1
            x = es[0]
            a = [bare(t) for t in x.args]
            if True in more:
                ck.bad('removal', 'goes past the selected features', x)
                continue
            if len(es) != 1 or last(x.q).replace('Impl', '') != 'removeFeature':
                ck.bad('removal', 'requests %s' % [last(y.q) for y in es], x)
            elif rec not in a:
                ck.bad('removal', 'recursive removal is requested as %s' % [
                    show(t) for t in a[1:]], x)
            elif not mentions(a[0], lambda t: t == B):
                ck.bad('removal', 'removes %s' % show(a[0]), x)
            else:
                ck.good('removal')
        elif it or more == {False} and not any(a[0] == 'empty' and v and a[1] != B
                                               for a, v in p.facts.items()):
            ck.bad('removal', 'a selected feature is not removed', f)
    ck.req(seen['removed'], 'removal', 'selected features are never removed', f)
    ck.req(seen['left'], 'features left', 'never returned', f)


@rule('P37', 'default', 'Removal is not recursive unless this is requested explicitly.')
def default(ck):
    n = 0
    for f in ck.fx.fns.values():
        if not f['q'].startswith(V) or not last(f['q']).startswith('removeFeature'):
            continue
        for q in f['params']:
            d = q.get('def')
            if q['t'] != 'bool' or d is None:
                continue
            n += 1
            if d.get('k') != 'bool':
                ck.undec(short(f['q']), 'default of %s' % q['n'])
            else:
                ck.req(d.get('v') is False, short(f['q'])[len(V):],
                       'features below are removed by default', f)
    if not n:
        raise Undecided('no defaults')
