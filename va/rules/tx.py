"""Feature model transactions: P01-P06 and the exact effect of every edit."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V, MODIFY, COPY

MODEL = ('model',)
OPQ = (V + 'FeatureModel::removeFeature', V + 'FeatureModel::removeRelationship')
OPS = ['addFeature', 'removeFeature', 'addRelationship', 'removeRelationship',
       'addLocation', 'removeLocation', 'addConstraint', 'setName',
       'setCommit', 'setPath', 'setRoot', 'addChild']
_cache = {}


def P(i):
    return lambda t: t[0] == 'param' and t[1] == i


def modify_ops(ck, op):
    """[(site, modification term, exec function)] of a deferred edit"""
    out = []
    fns = ck.fns(MODIFY + '::' + op)
    if not fns:
        raise Undecided('no %s' % op)
    for fn in fns:
        for p in ck.paths(fn, join=False):
            news = []
            for e in p.events:
                if e.kind == 'call' and last(e.q) in ADD:
                    for a in e.args:
                        if a[0] == 'new' and ck.fx.by_q.get(a[1] + '::exec'):
                            news.append(a)
            if p.kind != 'ret':
                continue
            out.append((fn, p, news))
    return out


def op_paths(ck, mode, op):
    """[(site, model term, public fn, path)], parameters are those of the
    public edit"""
    key = (id(ck.fx), mode, op)
    if key in _cache:
        r, an, n = _cache[key]
        ck.analysed |= an
        ck.npaths += n
        return r
    a0, n0 = set(ck.analysed), ck.npaths
    out = []
    if mode == 'modify':
        for fn, p, news in modify_ops(ck, op):
            if len(news) != 1:
                raise Undecided('%s does not record exactly one modification' % op)
            ex = ck.fn(news[0][1] + '::exec')
            for q in ck.paths(ex, this=news[0], args=[MODEL], join=False, opaque=OPQ,
                              mark_loops='ret'):
                out.append(('%s (modify)' % op, MODEL, fn, q))
    else:
        m = None
        for fn in ck.fns(COPY + '::' + op):
            for q in ck.paths(fn, join=False, opaque=OPQ, mark_loops='ret'):
                out.append(('%s (copy)' % op, copy_model(ck), fn, q))
        if not out:
            raise Undecided('no copy %s' % op)
    _cache[key] = (out, set(ck.analysed) - a0, ck.npaths - n0)
    return out


def copy_model(ck):
    """term of the model owned by a copy transaction"""
    k = (id(ck.fx), 'cm')
    if k not in _cache:
        c = None
        for fn in ck.fns(COPY + '::FeatureModelTransaction'):
            en = Engine(ck.fx, opaque=[V + 'FeatureModel::clone'])
            for p in ck.paths(fn, eng=en):
                for e in p.events:
                    if e.kind == 'init' and e.args and e.args[0][0] == 'call' and \
                            short(e.args[0][1]) == V + 'FeatureModel::clone':
                        c = ('fld', e.obj, e.q)
                        _cache[k + ('arg',)] = e.args[0][2]
        if c is None:
            raise Undecided('copy transactions do not store a clone')
        _cache[k] = c
    return _cache[k]


def ceffs(ck, path):
    """effects with canonical terms"""
    out = []
    for e in effects(ck, path):
        e.obj, e.val = unk(canon(ck, e.obj)), unk(canon(ck, e.val))
        e.loops = tuple(unk(canon(ck, l)) for l in e.loops)
        out.append(e)
    return out


def cfacts(ck, path):
    return {unk(canon(ck, a)): v for a, v in path.facts.items()}


def is_err(ret):
    return ret[0] == 'Err'


def code(ret):
    t = ret[1] if ret[0] == 'Err' else ret
    return t[1].rsplit('::', 1)[-1] if t[0] == 'enum' else None


def denotes(t, pi):
    """does canonical t denote the node given by public parameter pi?"""
    if t[0] == 'param' and t[1] == pi:
        return True
    if t[0] == 'get' and t[2][0] == 'param' and t[2][1] == pi:
        return True
    if t[0] == 'feat':
        k = t[2]
        if k[0] == 'get' and k[2][0] == 'param' and k[2][1] == pi:
            return True
        if k[0] == 'name':
            return denotes(k[1], pi)
    if t[0] in ('elem',) and t[1][0] == 'kids' and t[1][1] == 'Relationship':
        # a relationship is identified by its owner
        k = t[1][2]
        if k[0] == 'feat' and k[2][0] == 'name' and k[2][1][0] == 'fld':
            return denotes(k[2][1][1], pi)
    return False


def same(ck, a, b):
    return unk(canon(ck, a)) == unk(canon(ck, b))


def known_nonnull(facts, t):
    """is the canonical node term t known to exist on the path?"""
    if t[0] in ('new', 'elem', 'this', 'model', 'found'):
        return True
    v = facts.get(('nn', t))
    if v is not None:
        return v
    for a, b in facts.items():
        if b and a[0] == 'isa' and a[2] == t:
            return True
    if t[0] == 'feat':
        for a, b in facts.items():
            if a[0] == 'contains' and a[2] == t[2]:
                return b
    return None


# ------------------------------------------------------------------ pairing
@rule('P04', 'edges-paired', 'On every successful path of an edit, a parent '
      'reference is written iff the matching child edge is inserted, the edge '
      'from the former parent is dropped first, and an edge is only dropped '
      'for nodes that are moved or removed.')
def pairing(ck):
    R = roles(ck)
    R.need('parent', 'root', 'features')
    for mode in ('modify', 'copy'):
        for op in ('addFeature', 'addRelationship', 'removeRelationship',
                   'removeFeature', 'setRoot', 'addChild'):
            try:
                ps = op_paths(ck, mode, op)
            except Undecided as u:
                ck.undec('%s (%s)' % (op, mode), str(u))
                continue
            n = 0
            errs = {}
            for site, M, fn, p in ps:
                if p.kind != 'ret' or is_err(p.ret):
                    continue
                es = ceffs(ck, p)
                fs = cfacts(ck, p)
                snap = {unk(canon(ck, e.args[0])) for e in p.events if e.kind == 'snap'}
                for msg, ev in pair_errors(ck, R, es, fs, M, snap):
                    errs.setdefault(msg, ev)
                n += sum(e.kind in ('edge+', 'edge-', 'parent=') for e in es)
            site = '%s (%s)' % (op, mode)
            if errs:
                for m, ev in sorted(errs.items()):
                    ck.bad(site, m, ev)
            elif n:
                ck.good(site, '%d edge and parent updates paired' % n)
            else:
                ck.undec(site, 'no edge updates found')


def owner(N):
    """the node whose child the generic element N is"""
    if N[0] == 'elem':
        c = N[1]
        if c[0] == 'edges':
            return c[1]
        if c[0] == 'kids' and c[3] == ('int', 1):
            return c[2]
        if c[0] == 'kids' and c[2][0] == 'elem' and c[2][1][0] == 'kids' and \
                c[2][1][1] == 'Relationship':
            # members of a group are its direct children
            return c[2]
    return None


def pair_errors(ck, R, es, fs, M, snap=()):
    pf = R.of['parent']
    ins = [e for e in es if e.kind == 'edge+']
    dele = [e for e in es if e.kind == 'edge-']
    par = [e for e in es if e.kind == 'parent=']
    gone = [e for e in es if e.kind in ('feat-', 'rel-')]
    fresh = {e.val for e in es if e.kind in ('feat+', 'rel+')}
    for e in par:
        if e.val == NULL:
            if not any(d.val == e.obj for d in dele) and \
                    not any(g.val == e.obj for g in gone):
                yield 'parent of %s cleared but the edge to it is kept' % show(e.obj), e.ev
            continue
        if not any(i.obj == e.val and i.val == e.obj and i.loops == e.loops for i in ins):
            yield 'parent of %s set to %s without inserting the child edge' % (
                show(e.obj), show(e.val)), e.ev
        N, X = e.obj, e.val
        if N in fresh or N[0] == 'new':
            continue
        o = owner(N)
        old = ('fld', N, pf)
        if fs.get(('nn', old)) is False:
            continue
        if o is None:
            o = old
        drops = [d for d in dele if d.val == N and d.obj in (o, old)]
        if not drops:
            if any(g.val == o for g in gone) or (o[0] == 'param'):
                continue
            yield 'parent of %s changed but it stays a child of its former parent %s' % (
                show(N), show(o)), e.ev
            continue
        if o == old or (X not in fresh and o[0] == X[0] == 'feat'):
            i = [i for i in ins if i.val == N and i.obj == X]
            if i and i[0].i < drops[0].i:
                yield 'edge to %s is inserted before the former edge is removed ' \
                    '(lost if both parents are the same)' % show(N), i[0].ev
            w = [d for d in drops if d.obj == X]
            if w and X != o:
                yield 'the edge from the new parent is removed', w[0].ev
    for e in ins:
        if not any(q.obj == e.val and q.val == e.obj and q.loops == e.loops for q in par):
            yield 'child edge from %s to %s inserted without setting the parent' % (
                show(e.obj), show(e.val)), e.ev
    for e in dele:
        if any(g.val == e.val or g.val == ('name', e.val) for g in gone):
            continue
        if any(i.val == e.val or (e.val[0] == 'elem' and i.val[0] == 'elem') for i in ins) \
                and any(q.obj == e.val or q.obj[0] == 'elem' for q in par):
            continue
        if any(g.val == e.obj for g in gone) or e.obj[0] == 'param':
            continue
        yield 'edge from %s to %s removed but the node is neither moved nor removed' % (
            show(e.obj), show(e.val)), e.ev
    for l in {x for e in es for x in e.loops}:
        if l[0] == 'edges' and l not in snap:
            for e in es:
                if e.kind in ('edge+', 'edge-') and l in e.loops and e.obj == l[1]:
                    yield 'children of %s are changed while iterating over them' % show(l[1]), e.ev


# ------------------------------------------------------------ exact effects
def eset(es):
    return [(e.kind, e.obj, e.val, e.loops) for e in es]


def spec_addFeature(ck, R, M, p, es, fs, mode):
    F = [e for e in es if e.kind == 'feat+']
    if len(F) != 1 or not denotes(F[0].val, 0) or F[0].obj != M:
        return 'the new feature is not inserted exactly once'
    F = F[0].val
    exp = [('feat+', M, F, ())]
    prm = None
    for a, v in fs.items():
        if a[0] == 'nn' and denotes(a[1], 1):
            prm = (a[1], v)
            if a[1][0] == 'feat':
                break
    X = None
    if prm and prm[1]:
        X = [e.val for e in es if e.kind == 'parent=']
        X = X[0] if X else None
        if X is None or not denotes(X, 1):
            return 'given parent is not used as the parent (%s)' % (show(X) if X else None)
    else:
        root = unk(canon(ck, R.f('root', M)))
        if fs.get(('nn', root)):
            X = root
        elif fs.get(('nn', root)) is None:
            return 'the feature gets no parent although the model may have a root'
    if X is not None:
        exp += [('parent=', F, X, ()), ('edge+', X, F, ())]
    return diff(es, exp)


def diff(es, exp, may=()):
    got = eset(es)
    for x in exp:
        if x not in got:
            return 'missing effect %s(%s, %s)' % (x[0], show(x[1]), show(x[2]))
    for i, g in enumerate(got):
        if g not in exp and g not in may:
            return 'unexpected effect %s(%s, %s) at %s:%s' % (
                g[0], show(g[1]), show(g[2]), es[i].ev.file, es[i].ev.line)
        if got.index(g) != i and g[0] in ('feat+', 'rel+', 'flocs+', 'bcons+', 'ncons+', 'mcons+'):
            return 'effect %s repeated' % g[0]
    return None


def first(es, kind):
    for e in es:
        if e.kind == kind:
            return e
    return None


def spec_addRelationship(ck, R, M, p, es, fs, mode):
    r = first(es, 'rel+')
    if r is None or r.obj != M or r.val[0] != 'new' or short(r.val[1]) != V + 'Relationship':
        return 'no relationship is added to the model'
    rel = r.val
    if len(rel[2]) != 1 or not (rel[2][0][0] == 'param' and rel[2][0][1] == 0):
        return 'the relationship does not get the requested kind but %s' % show(rel)
    pe = [e for e in es if e.kind == 'parent=' and e.obj == rel]
    if len(pe) != 1 or not denotes(pe[0].val, 1):
        return 'the relationship is not attached to the given parent'
    X = pe[0].val
    exp = [('rel+', M, rel, ()), ('parent=', rel, X, ()), ('edge+', X, rel, ())]
    loops = {e.loops for e in es if e.loops}
    k = ('kids', 'Feature', X, ('int', 1))
    ed = ('edges', X)
    for l in loops:
        if l not in ((k,), (ed,)):
            if l[-1][0] == 'kids' and l[-1][2] == X:
                return 'group is formed over %s instead of the direct children' % show(l[-1])
            raise Undecided('children enumerated through %s' % show(l[-1]))
    if fs.get(('empty', k)) is None and fs.get(('empty', ed)) is None:
        return 'the children of the parent are not moved into the group'
    if fs.get(('empty', k)) is False or fs.get(('empty', ed)) is False:
        c = k if ('empty', k) in fs else ed
        el = ('elem', c)
        if c == ed and not loops:
            return None      # non-feature child of the generic element
        exp += [('edge-', X, el, (c,)), ('edge+', rel, el, (c,)),
                ('parent=', el, rel, (c,))]
    return diff(es, exp)


def spec_removeRelationship(ck, R, M, p, es, fs, mode):
    r = first(es, 'rel-')
    if r is None or r.obj != M:
        return 'no relationship is removed from the model'
    rel = r.val
    X = None
    if rel[0] == 'elem' and rel[1][0] == 'kids' and rel[1][1] == 'Relationship':
        X = rel[1][2]
        if rel[1][3] != ('int', 1):
            return 'a relationship further down the tree may be removed (%s)' % show(rel)
    else:
        raise Undecided('relationship found through %s' % show(rel))
    if not denotes(X, 0):
        return 'relationship of %s is removed' % show(X)
    exp = [('edge-', X, rel, ()), ('rel-', M, rel, ())]
    for l in {e.loops for e in es if e.loops}:
        if not (len(l) == 1 and (l[0] == ('edges', rel) or (
                l[0][0] == 'kids' and l[0][2] == rel))):
            raise Undecided('members enumerated through %s' % show(l[-1]))
    cs = [a[1] for a, v in fs.items() if a[0] == 'empty' and (
        a[1] == ('edges', rel) or a[1][0] == 'kids' and a[1][2] == rel) and not v]
    if not any(a[0] == 'empty' and (a[1] == ('edges', rel) or (
            a[1][0] == 'kids' and a[1][2] == rel)) for a in fs):
        return 'members of the group are not moved to its parent'
    for c in cs:
        el = ('elem', c)
        exp += [('edge-', rel, el, (c,)), ('edge+', X, el, (c,)),
                ('parent=', el, X, (c,))]
    d = diff(es, exp)
    if d:
        return d
    if any(e.i > r.i for e in es if e.loops):
        return 'the relationship is deleted before its members are moved'
    return None


def spec_removeFeature(ck, R, M, p, es, fs, mode):
    r = [e for e in es if e.kind == 'feat-' and not e.loops]
    if len(r) != 1 or r[0].obj != M:
        return 'the feature is not removed exactly once'
    r = r[0]
    F = r.val
    if F[0] == 'name':
        F = F[1]
    if not denotes(F, 0):
        return 'removes %s instead of the given feature' % show(F)
    par = ('fld', F, R.of['parent'])
    dr = [e for e in es if e.kind == 'edge-' and e.val == F and not e.loops]
    if len(dr) != 1 or dr[0].obj != par:
        return 'the edge from the parent to the removed feature is kept'
    if dr[0].i > r.i:
        return 'the removed feature is used after it has been deleted'
    kf = [a for a in fs if a[0] == 'empty' and a[1][0] in ('kids', 'edges') and
          a[1][-1 if a[1][0] == 'edges' else 2] == F and (
              a[1][0] == 'edges' or a[1][1] in ('Feature', 'FeatureTreeNode'))]
    if not kf:
        return 'the children of the removed feature are not considered'
    for a in kf:
        if a[1][0] == 'kids' and a[1][1] == 'Feature' and a[1][3] != ('int', -1) \
                and fs[a]:
            return 'members of groups below the removed feature are not considered'
    rec = [b for a, b in fs.items() if a[0] == 'nn' and a[1][0] == 'param' and a[1][1] == 1]
    nonempty = any(fs[a] is False for a in kf)
    if nonempty:
        if not (rec and rec[0]):
            return 'a feature with children is removed although removal is not recursive'
        # each child must be removed with the same modification first
        ok = False
        for e in p.events:
            if e.kind == 'call' and e.loops and unk(canon(ck, e.loops[-1])) == kf[0][1]:
                ts = [e.obj] + list(e.args)
                el = ('elem', kf[0][1])
                if any(x is not None and mentions(unk(canon(ck, x)), lambda y: y == el)
                       for x in ts):
                    ok = True
        if not ok:
            return 'children of a recursively removed feature are kept'
    kr = ('kids', 'Relationship', F, ('int', -1))
    krs = [a for a in fs if a[0] == 'empty' and a[1][0] == 'kids' and
           a[1][1] == 'Relationship' and a[1][2] == F]
    if not krs:
        return 'groups of the removed feature are kept'
    for a in krs:
        if fs[a] is False:
            rr = [e for e in es if e.kind == 'rel-' and unk(e.val) == ('elem', a[1])]
            if not rr:
                return 'the group of the removed feature is kept in the model'
            if rr[0].i > r.i:
                return 'group removed after its feature has been deleted'
    for e in es:
        if e.kind in ('edge-', 'feat-', 'rel-'):
            continue
        return 'unexpected effect %r' % e
    return None


def spec_addLocation(ck, R, M, p, es, fs, mode):
    e = first(es, 'flocs+')
    if e is None or not denotes(e.obj, 0) or e.val[0] != 'param' or e.val[1] != 1:
        return 'the given location is not added to the given feature'
    return diff(es, [('flocs+', e.obj, e.val, ())])


def spec_removeLocation(ck, R, M, p, es, fs, mode):
    e = first(es, 'flocs-')
    if e is None:
        for a, v in fs.items():
            if a[0] == 'contains' and v is False and a[2][0] == 'param' and a[2][1] == 1:
                return diff(es, [])
        if any(a[0] in ('eq', 'empty') for a in fs):
            return None
        return 'the given location is not removed'
    if not denotes(e.obj, 0):
        return 'location of another feature is removed'
    it = unk(e.ev.args[0])
    if it[0] == 'found':
        it = it[2]
    if it[0] in ('end',):
        return 'end of the locations is erased'
    if not (it[0] == 'param' and it[1] == 1) and it[0] != 'elem':
        return 'another location is removed: %s' % show(it)
    return diff(es, [('flocs-', e.obj, e.val, ())])


def spec_set(role, pi=0):
    def f(ck, R, M, p, es, fs, mode):
        e = first(es, role + '=')
        if e is None or e.obj != M or not (e.val[0] == 'param' and e.val[1] == pi):
            return 'the given value is not stored'
        return diff(es, [(role + '=', M, e.val, ())])
    return f


def spec_addChild(ck, R, M, p, es, fs, mode):
    e = first(es, 'parent=')
    if e is None:
        return 'the child gets no parent'
    if not denotes(e.obj, 1) or not denotes(e.val, 0):
        return 'parent of %s set to %s' % (show(e.obj), show(e.val))
    C, X = e.obj, e.val
    exp = [('parent=', C, X, ()), ('edge+', X, C, ())]
    old = ('fld', C, R.of['parent'])
    if fs.get(('nn', old)) is True:
        exp.append(('edge-', old, C, ()))
    return diff(es, exp)


def spec_addConstraint(ck, R, M, p, es, fs, mode):
    e = [x for x in es if x.kind in ('bcons+', 'ncons+', 'mcons+')]
    if len(e) != 1 or e[0].obj != M or not (e[0].val[0] == 'param' and e[0].val[1] == 0):
        return 'the constraint is not stored exactly once'
    want = {'BooleanConstraint': 'bcons+', 'NonBooleanConstraint': 'ncons+',
            'MixedConstraint': 'mcons+'}
    t = ck.cur_fn['params'][0]['t']
    m = re.search(r'::(\w*Constraint)\b', t.replace('unique_ptr', ''))
    kind = m.group(1) if m else ''
    if kind in want and e[0].kind != want[kind]:
        return '%s stored in the wrong collection' % kind
    # the visitor that connects the stored constraint with its features
    acc = [x for x in p.events if x.kind == 'call' and last(x.q) == 'accept']
    after = [x for x in acc if p.events.index(x) > e[0].i]
    if not after:
        return 'the features of the constraint are not connected to it'
    return None


def spec_setRoot(ck, R, M, p, es, fs, mode):
    """the new root takes over the children of the former one; a root with the
    name of the present one only hands its children over"""
    new, root = p_at(es, fs, 0), ('fld', M, R.of['root'])
    if new is None:
        return None
    same = [v for a, v in fs.items() if a[0] == 'eq' and {a[1], a[2]} ==
            {('name', root), ('name', new)}]
    if same and same[0]:
        src, dst = new, root
        for e in es:
            if e.kind in ('feat+', 'feat-', 'root='):
                return 'a root of the same name replaces the present one'
    else:
        src, dst = root, new
        add = [e for e in es if e.kind == 'feat+']
        if len(add) != 1 or add[0].val != new:
            return 'the new root is not added to the features'
        sr = [e for e in es if e.kind == 'root=']
        if not sr or sr[-1].val != new:
            return 'the model does not get the new root'
        had = fs.get(('nn', root))
        rem = [e for e in es if e.kind == 'feat-']
        if had and (len(rem) != 1 or rem[0].val != root):
            return 'the former root is not removed'
        if had is False and rem:
            return 'a feature is removed although there was no root'
        if had is None:
            return None
        if not had:
            return None
    if fs.get(('empty', ('edges', src))) is not True:
        el = ('elem', ('edges', src))
        if not any(e.kind == 'parent=' and e.obj == el and e.val == dst for e in es) or \
                not any(e.kind == 'edge+' and e.obj == dst and e.val == el for e in es):
            return 'children of the %s root are not moved' % (
                'given' if src == new else 'former')
    return None


def p_at(es, fs, i):
    for t in [x for e in es for x in (e.obj, e.val) if x is not None] + list(fs):
        for x in walk(t):
            if x and x[0] == 'param' and x[1] == i:
                return x
    return None


SPECS = {'addFeature': spec_addFeature, 'addRelationship': spec_addRelationship,
         'removeRelationship': spec_removeRelationship,
         'removeFeature': spec_removeFeature, 'addLocation': spec_addLocation,
         'removeLocation': spec_removeLocation, 'setName': spec_set('mname'),
         'setCommit': spec_set('mcommit'), 'setPath': spec_set('mpath'),
         'addChild': spec_addChild, 'addConstraint': spec_addConstraint,
         'setRoot': spec_setRoot}


@rule('P03', 'exact-effect', 'On every successful path of an edit (from its '
      'public parameters, through the deferred modification, to the stores of '
      'the model) exactly the requested effects take place.')
def exact(ck):
    R = roles(ck)
    R.need(*('parent root features rels bcons ncons mcons flocs mname mpath mcommit'.split()))
    for mode in ('modify', 'copy'):
        for op, spec in SPECS.items():
            site = '%s (%s)' % (op, mode)
            try:
                ps = op_paths(ck, mode, op)
                errs, n = {}, 0
                for c, e in cut_short([p for _, _, _, p in ps
                                       if p.kind == 'ret' and not is_err(p.ret)]):
                    errs.setdefault('not all elements of %s are treated' % show(
                        unk(canon(ck, c))), e)
                for _, M, fn, p in ps:
                    if p.kind != 'ret':
                        continue
                    if mode == 'modify' and is_err(p.ret):
                        continue
                    if mode == 'copy' and (is_err(p.ret) or copy_failed(ck, op, p, M)):
                        continue
                    if p.ret[0] not in ('Ok', 'void') and not (mode == 'copy'):
                        continue
                    es, fs = ceffs(ck, p), cfacts(ck, p)
                    ck.cur_fn = fn
                    if infeasible(fs):
                        continue
                    m = spec(ck, R, M, p, es, fs, mode)
                    n += 1
                    if m:
                        errs.setdefault(m, fn)
            except Undecided as u:
                ck.undec(site, str(u))
                continue
            if errs:
                for m, f in sorted(errs.items()):
                    ck.bad(site, m, f)
            elif n:
                ck.good(site, '%d successful paths' % n)
            else:
                ck.undec(site, 'no successful path')


def infeasible(fs):
    # a unique_ptr that has been dereferenced cannot be null
    for a, v in fs.items():
        if a[0] == 'nn' and v is False and a[1][0] == 'param':
            if any(mentions(b, lambda y: y == ('name', a[1])) for b in fs):
                return True
    return False


def copy_failed(ck, op, p, M):
    """void edits of a copy transaction that were rejected: a looked-up node
    is missing on this path"""
    fs = cfacts(ck, p)
    if p.ret[0] in ('Ok',):
        return False
    if p.ret != VOID:
        return p.ret[0] != 'Ok'
    if effects(ck, p):
        return False
    for a, v in fs.items():
        if v is False and a[0] in ('contains', 'nn'):
            if a[0] == 'contains' and a[1][0] != 'fld':
                continue
            if a[0] == 'contains' and op == 'removeLocation' and a[2] == ('param', 1, a[2][-1]):
                continue
            return True
        if op == 'removeFeature' and a[0] == 'empty' and v is False:
            return True
        if op == 'removeRelationship' and a[0] == 'empty' and v is True:
            return True
    return False


@rule('P03', 'takes-effect', 'Every edit has a path on which it changes the '
      'model and succeeds; it is not rejected for the sole reason that the '
      'model exists, and what is known to be absent is not used.')
def takes_effect(ck):
    R = roles(ck)
    for mode in ('modify', 'copy'):
        for op in OPS:
            site = '%s (%s)' % (op, mode)
            try:
                ps = op_paths(ck, mode, op)
            except Undecided as u:
                ck.undec(site, str(u))
                continue
            errs, done = {}, 0
            for _, M, fn, p in ps:
                if p.kind != 'ret':
                    continue
                M = unk(M)
                es, fs = ceffs(ck, p), cfacts(ck, p)
                if es and not is_err(p.ret):
                    done += 1
                if mode == 'copy' and es and fn['rt'] != 'void' and \
                        p.ret != VOID and fs.get(('nn', M)) is not True:
                    errs.setdefault('the edit is applied without a model (finished transaction)', es[0].ev)
                if is_err(p.ret) and fs == {('nn', M): True}:
                    errs.setdefault('every edit is rejected when there is a model', fn)
                facts = list(fs.items())
                for i, (a, v) in enumerate(facts):
                    if a[0] == 'nn' and v is False and a[1][0] == 'param' and \
                            any(mentions(b, lambda y: y[0] == 'fld' and y[1] == a[1])
                                for b, _ in facts[i + 1:]):
                        errs.setdefault('a missing %s is dereferenced' % a[1][-1], fn)
            if not done:
                errs.setdefault('no path of the edit changes the model and succeeds',
                                ps[0][2] if ps else None)
            if errs:
                for m, w in sorted(errs.items()):
                    ck.bad(site, m, w)
            else:
                ck.good(site, '%d effective paths' % done)
