"""Building of models (P29)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, MODIFY
from .tx import MODEL
from .clone import Requests, BUILD, COMMIT, unvar

B = V + 'FeatureModelBuilder'
ABORT = MODIFY + '::abort'


def stage_of(ev):
    """field of the builder with the transaction an edit is recorded in"""
    for t in walk(ev.obj) if ev.obj else ():
        if t and t[0] == 'fld' and t[1] == THIS:
            return t[2]
    return None


def params(f):
    return [('param', i, p['n']) for i, p in enumerate(f['params'])]


def methods(ck, name):
    return [f for f in ck.fx.fns.values() if f.get('body') is not None and
            short(f['q']).split('<')[0] == B + '::' + name]


def named(t, key):
    return t[0] == 'feat' and t[1] == MODEL and unvar(t[2]) == key


def stages(ck):
    """transactions of the builder in the order in which they are committed"""
    f = ck.fn(BUILD)
    out = set()
    for p in ck.paths(f, join=False, opaque=[COMMIT, ABORT]):
        if p.kind == 'ret' and p.ret != NULL:
            out.add(tuple(e.obj[2] for e in p.events if e.kind == 'call' and
                          last(e.q) == 'commit' and e.obj and e.obj[0] == 'fld'))
    if len(out) != 1:
        raise Undecided('no fixed order of the stages')
    return list(out.pop())


@rule('P29', 'requests', 'Each request of a builder is recorded, on every path, as '
      'exactly the edit that it names, with all of its arguments.')
def requests(ck):
    rq = Requests(ck)
    R = roles(ck)
    st = stages(ck)
    seen = {}

    def one(f):
        """[(path, stage, modification, [effects of successful runs])]"""
        for p in ck.paths(f, join=False, opaque=[COMMIT, ABORT]):
            if p.kind == 'throw':
                continue
            rs = list(rq.on(p))
            yield p, rs

    def check(name, what, match):
        fs = methods(ck, name)
        if not fs:
            raise Undecided('no builder method %s' % name)
        for f in fs:
            P = params(f)
            site = name
            for p, rs in one(f):
                if len(rs) != 1:
                    ck.bad(site, '%d edits are recorded for one request%s' % (
                        len(rs), ' if ' + ', '.join(('' if v else 'not ') + show(a)[:80]
                                                   for a, v in p.facts.items())
                        if p.facts else ''), f)
                    continue
                ev, new = rs[0]
                if ev.loops:
                    ck.bad(site, 'recorded repeatedly or not at all', ev)
                s = stage_of(ev)
                seen.setdefault(name, set()).add(s)
                ck.req(s in st, site + ': committed', 'recorded in %s, which is not committed'
                       % last(s or '?'), ev)
                runs = rq.of(new)
                if not runs:
                    ck.undec(site, 'effects of %s' % new[1])
                    continue
                got = [e for _, es in runs for e in es]
                why = match(f, P, got)
                ck.req(why is None, site, '%s: %s' % (what, why), ev)
        return fs

    def feature(f, P, es):
        ns = [e.val for e in es if e.kind == 'feat+']
        if not ns:
            return 'no feature is added'
        ty = (f.get('targs') or ['?'])[0]
        for n in ns:
            if n[0] != 'new':
                return 'adds %s' % show(n)
            if last(n[1]) != last(ty):
                return 'a %s is added' % last(n[1])
            if tuple(unvar(x) for x in n[2][:len(P)]) != tuple(P):
                return 'the feature is made from %s' % ', '.join(show(x) for x in n[2])
        return None
    check('makeFeature', 'the feature is not added as requested', feature)

    def edge(f, P, es):
        pe = [e for e in es if e.kind == 'parent=']
        ee = [e for e in es if e.kind == 'edge+']
        if not pe or not ee:
            return 'no edge is added'
        for e in pe:
            if not (named(e.obj, P[1]) and named(e.val, P[0])):
                return '%s is put below %s' % (show(e.obj), show(e.val))
        return None
    check('addEdge', 'the edge is not added as requested', edge)

    def rel(f, P, es):
        rs = {e.val for e in es if e.kind == 'rel+'}
        k = [i for i, p in enumerate(f['params']) if 'RelationshipKind' in p['t']][0]
        if not rs:
            return 'no group is added'
        for r in rs:
            if r[0] != 'new' or r[2][:1] != (P[k],):
                return 'a group of kind %s is added' % show(r)
            own = [e for e in es if e.kind == 'parent=' and e.obj == r]
            if not own or not all(named(e.val, P[1 - k]) for e in own):
                return 'the group is put below %s' % [show(e.val) for e in own]
        return None
    check('emplaceRelationship', 'the group is not added as requested', rel)

    def loc(f, P, es):
        ls = [e for e in es if e.kind == 'flocs+']
        if not ls:
            return 'no location is added'
        for e in ls:
            if not named(e.obj, P[0]) or unvar(e.val) != P[1]:
                return '%s is added to %s' % (show(e.val), show(e.obj))
        return None
    check('addLocation', 'the location is not added as requested', loc)

    def cons(f, P, es):
        ty = last((f.get('targs') or ['?'])[0])
        want = {'BooleanConstraint': 'bcons+', 'NonBooleanConstraint': 'ncons+',
                'MixedConstraint': 'mcons+'}.get(ty)
        cs = [e for e in es if e.kind in ('bcons+', 'ncons+', 'mcons+')]
        if not cs:
            return 'no constraint is added'
        for e in cs:
            if want and e.kind != want:
                return 'added to the wrong collection'
            if unvar(e.val) != P[0]:
                return '%s is added' % show(e.val)
        return None
    check('addConstraint', 'the constraint is not added as requested', cons)

    def sets(role):
        def m(f, P, es):
            v = {unvar(e.val) for e in es if e.kind == role + '='}
            return None if v == {P[0]} else 'set to %s' % ([show(x) for x in v] or 'nothing')
        return m
    check('setVmName', 'the name is not set as requested', sets('mname'))
    check('setPath', 'the path is not set as requested', sets('mpath'))
    check('setCommit', 'the commit is not set as requested', sets('mcommit'))

    def root(f, P, es):
        rs = {t for e in es for x in (e.obj, e.val) for t in walk(x)
              if t and t[0] == 'new' and last(t[1]) == 'RootFeature'}
        if not rs:
            return 'no root is set'
        for r in rs:
            if unvar((r[2] or (VOID,))[0]) != P[0]:
                return 'the root is %s' % show(r)
        return None
    check('makeRoot', 'the root is not set as requested', root)
    # order of the stages
    rk = {n: {st.index(s) for s in ss if s in st} for n, ss in seen.items()}
    for a, b in (('makeFeature', 'addEdge'), ('addEdge', 'emplaceRelationship'),
                 ('makeFeature', 'addLocation'), ('makeFeature', 'addConstraint')):
        if rk.get(a) and rk.get(b):
            ck.req(max(rk[a]) < min(rk[b]), 'order: %s before %s' % (a, b),
                   'requests of %s are applied before those of %s' % (b, a), ck.fn(BUILD))
    if rk.get('makeRoot') and rk.get('makeFeature'):
        ck.req(max(rk['makeRoot']) <= min(rk['makeFeature']), 'order: root before features',
               'features are added before the root is set', ck.fn(BUILD))


@rule('P29', 'parents', 'The builder knows the parent that was requested for each '
      'feature, and no other.')
def parents(ck):
    m = None
    for f in methods(ck, 'addEdge'):
        P = params(f)
        for p in ck.paths(f, join=False, opaque=[COMMIT, ABORT]):
            w = []
            for e in p.events:
                if e.kind == 'write' and e.obj and e.obj[0] == 'at' and \
                        e.obj[1][0] == 'fld' and e.obj[1][1] == THIS:
                    w.append((e.obj[1][2], e.obj[2], e.args[0]))
                elif e.kind == 'call' and last(e.q) in ADD and e.obj and e.obj[0] == 'fld' \
                        and e.obj[1] == THIS and len(e.args) == 2:
                    w.append((e.obj[2], e.args[0], e.args[1]))
            w = [(a, unvar(b), unvar(c)) for a, b, c in w]
            ok = [x for x in w if x[1:] == (P[1], P[0])]
            ck.req(bool(ok) and len(w) == len(ok), 'addEdge', 'remembered as %s' % (
                [(show(b), show(c)) for _, b, c in w] or 'nothing'), f)
            for x in ok:
                m = x[0]
    if m is None:
        return
    for f in methods(ck, 'getParentName'):
        P = params(f)
        C = ('contains', ('fld', THIS, m), P[0])
        for p in ck.paths(f, join=False):
            has = p.facts.get(C)
            if p.ret == NULL:
                ck.req(has is False, 'unknown parent', 'a requested parent is not returned', f)
            else:
                ck.req(has is True and p.ret == ('some', ('mapent', ('fld', THIS, m), P[0]))
                       or p.ret == ('some', ('mapval', ('fld', THIS, m), P[0])),
                       'known parent', 'returns %s' % show(p.ret), f)


@rule('P29', 'build', 'Building commits every stage of the builder and yields the '
      'model only if all commits succeed; otherwise no model.')
def build(ck):
    f = ck.fn(BUILD)
    rec = ck.fx.recs.get(B) or {}
    tr = []
    for fl in rec.get('fields', ()):
        if 'FeatureModelTransaction' in (fl.get('t') or ''):
            tr.append(fl['q'] if 'q' in fl else B + '::' + fl['n'])
    some = 0
    for p in ck.paths(f, join=False, opaque=[COMMIT, ABORT]):
        if p.kind != 'ret':
            continue
        cs = [e.obj for e in p.events if e.kind == 'call' and last(e.q) == 'commit']
        ok = {a[1][1][2]: v for a, v in p.facts.items() if a[0] == 'nn' and a[1][0] == 'ok' and
              a[1][1][0] == 'call' and last(a[1][1][1]) == 'commit'}
        if p.ret == NULL:
            ck.req(any(v is False for v in ok.values()), 'no model', 'no model is returned '
                   'although every stage succeeds', f)
            continue
        some += 1
        for t in tr or [c[2] for c in cs]:
            o = ('fld', THIS, t)
            n = last(t)
            ck.req(o in cs, '%s committed' % n, 'a model is returned without committing %s' % n, f)
            ck.req(ok.get(o) is True, '%s failed' % n,
                   'a model is returned although committing %s failed' % n, f)
        fm = {t for t in walk(p.ret) if t and t[0] == 'fld' and t[1] == THIS}
        ck.req(len(fm) == 1 and 'FeatureModel>' in str(
            [x.get('t') for x in rec.get('fields', ()) if last(list(fm)[0][2]) == x.get('n')])
            .replace(',', '>'),
            'result', 'returns %s' % show(p.ret), f)
        i = [k for k, e in enumerate(p.events) if e.kind == 'call' and last(e.q) == 'abort']
        for k in i:
            e = p.events[k]
            ck.req(e.obj in [x.obj for x in p.events[:k] if x.kind == 'call' and
                             last(x.q) == 'commit'], 'aborted', '%s is aborted' % show(e.obj), e)
    ck.need(some, 'no model is ever returned')


@rule('P29', 'abandoned', 'A builder that is destroyed ends all of its open stages '
      'without applying them.')
def abandoned(ck):
    fs = [f for f in ck.fx.fns.values() if short(f['q']) == B + '::~FeatureModelBuilder' and
          f.get('body') is not None]
    rec = ck.fx.recs.get(B) or {}
    tr = [fl['q'] if 'q' in fl else B + '::' + fl['n'] for fl in rec.get('fields', ())
          if 'FeatureModelTransaction' in (fl.get('t') or '')]
    ck.need(tr, 'stages of the builder')
    if not fs:
        for t in tr:
            ck.bad(last(t), 'an open stage is not aborted when the builder is destroyed', B)
        return
    for p in ck.paths(fs[0], join=False, opaque=[COMMIT, ABORT]):
        for t in tr:
            o = ('fld', THIS, t)
            ev = [last(e.q) for e in p.events if e.kind == 'call' and e.obj == o]
            ck.req(ev and ev[0] == 'abort', last(t), 'an open stage is not aborted when the '
                   'builder is destroyed', fs[0])
