"""P07: models only change through transactions and builders."""
import re
from ..core import *
from ..model import roles, effects, V

NODES = [V + 'FeatureTreeNode', V + 'Feature', V + 'Relationship']
MODEL = V + 'FeatureModel'
FRIENDS = {V + 'FeatureModel', V + 'FeatureModelBuilder',
           V + 'detail::FeatureModelModification'}
FREE = {'flocs'}                # source locations may be changed directly


def classes(ck):
    """the model, its nodes and everything derived from them"""
    out = [MODEL, V + 'PrimaryFeatureConstraint'] + NODES
    more = True
    while more:
        more = False
        for q, r in ck.fx.recs.items():
            if q not in out and any(b['n'] in out for b in r.get('bases', ())) and \
                    q.startswith(V):
                out.append(q)
                more = True
    return [q for q in out if q in ck.fx.recs]


def where(ck, q, l=None):
    r = ck.fx.recs[q]
    return '%s:%s' % (r['file'], l or r['l'])


@rule('P07', 'fields', 'The parts of models, features and groups are not public, and nodes '
      'do not pass on the operations of the graph they are built on.')
def fields(ck):
    for q in classes(ck):
        r = ck.fx.recs[q]
        for f in r['fields']:
            ck.req(f['acc'] != 'public' or f['t'].startswith('const '),
                   '%s::%s' % (last(q), f['n']),
                   'the field %s of %s can be changed by everyone' % (f['n'], last(q)),
                   where(ck, q, f.get('l')))
        for b in r.get('bases', ()):
            if b['n'].startswith('llvm::DGNode'):
                ck.req(b['acc'] in ('private', 'protected'), '%s: graph' % last(q),
                       '%s makes the edges of its graph node public' % last(q), where(ck, q))
        for u in r.get('usings', ()):
            if u['of'].startswith('llvm::DGNode') or u['of'].startswith('llvm::DGEdge'):
                ck.req(u['acc'] != 'public' or u.get('const') or
                       u['n'] in ('begin', 'end', 'front', 'back'),
                       '%s: using %s' % (last(q), u['n']),
                       '%s makes %s of its graph node public' % (last(q), u['n']),
                       where(ck, q, u['l']))
            elif u['of'].rsplit('::', 1)[0] in classes(ck):
                m = [m for m in ck.fx.recs[u['of'].rsplit('::', 1)[0]]['methods']
                     if m['n'] == u['n'] and m['acc'] == 'public']
                ck.req(u['acc'] != 'public' or bool(m) or u.get('const'),
                       '%s: using %s' % (last(q), u['n']),
                       '%s makes %s public' % (last(q), u['of']), where(ck, q, u['l']))


def base(t):
    """the object that owns a part"""
    while t and t[0] in ('fld', 'mapent', 'mapval', 'deref', 'found', 'elem', 'val',
                         'edges', 'iter', 'back', 'at', 'var'):
        t = t[2] if t[0] in ('found', 'var') else t[1]
        if not isinstance(t, tuple):
            return None
    return t


OWN = ('this', 'arg', 'kids', 'rng', 'feat', 'call')


def change(ck, f):
    """what an operation changes of the objects it is called for: an event"""
    for p in ck.paths(f):
        for e in effects(ck, p):
            if e.kind.rstrip('+-=') in FREE:
                continue
            b = base(e.obj)
            if b is not None and b[0] in OWN:
                return e.ev
        for e in p.events:
            # members without a role
            if e.kind == 'write' and e.obj and e.obj[0] == 'fld' and \
                    base(e.obj) == THIS and e.obj[2] not in roles(ck).by:
                return e
    return None


@rule('P07', 'effects', 'No public operation of a model, feature or group changes the tree, '
      'names, groups or constraints of it.')
def operations(ck):
    roles(ck).need('parent', 'root', 'features')
    cls = classes(ck)
    n = 0
    for f in sorted(ck.fx.fns.values(), key=lambda f: (f['q'], f['l'])):
        if f.get('body') is None or f.get('ctor') or f.get('acc') != 'public' or \
                f.get('cls') not in cls or last(f['q']).startswith('~'):
            continue
        site = '%s::%s%s' % (last(f['cls']), last(f['q']), ' const' if f.get('const') else '')
        n += 1
        try:
            e = change(ck, f)
        except Undecided as x:
            ck.undec(site, str(x), f)
            continue
        if e is None:
            ck.good(site)
        else:
            ck.bad(site, '%s is public but changes %s' % (site, show(e.obj)), e)
    ck.need(n, 'no public operations found')


def mutable(rt):
    """does a value of this type allow to change the container it comes from?"""
    rt = rt.strip()
    if 'FeatureSourceRange' in rt:
        return False
    m = re.search(r'__normal_iterator<(.*?), std::vector', rt)
    if m:
        p = m.group(1).strip()
        el = p[:-1].strip()               # the element type
        return not (el.endswith('const') or el.startswith('const ') and '*' not in el)
    if 'StringMapIterator<' in rt or '_Rb_tree_iterator<' in rt:
        return True
    if rt.endswith('&'):
        return not (rt.startswith('const ') or rt[:-1].rstrip().endswith('const'))
    if rt.endswith('*'):
        el = rt[:-1].strip()
        if el.startswith('const ') and '*' not in el or el.endswith('const'):
            return False
        return not el.startswith('vara::feature::') or el.endswith('*')
    return False


@rule('P07', 'handles', 'No public operation hands out modifiable access to a collection or '
      'a part of a model, feature or group.')
def handles(ck):
    for q in classes(ck):
        for m in ck.fx.recs[q].get('methods', ()):
            if m['acc'] != 'public' or m.get('del') or m.get('tmpl') or not m.get('rt') or \
                    m['n'].startswith('operator=') and m['n'] != 'operator==':
                continue
            ck.req(not mutable(m['rt']), '%s::%s%s' % (last(q), m['n'],
                                                       ' const' if m.get('const') else ''),
                   'the public operation %s of %s returns %s, through which the model can '
                   'be changed' % (m['n'], last(q), m['rt'][:120]),
                   where(ck, q, m.get('l')))


@rule('P07', 'friends', 'Only the model, its builder and the modifications of transactions '
      'have access to the parts of models, features and groups.')
def friends(ck):
    for q in classes(ck):
        for x in ck.fx.recs[q].get('friends', ()):
            site = '%s: friend %s' % (last(q), last(x))
            if x in FRIENDS or x in classes(ck):
                ck.good(site)
                continue
            # another friend is harmless as long as nobody can use it for changes
            fs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
                  (f['q'] == x or f.get('cls') == x and f.get('acc') == 'public' and
                   not f.get('ctor'))]
            if not fs:
                ck.undec(site, 'operations of %s are not known' % x, where(ck, q))
                continue
            for f in fs:
                try:
                    e = change(ck, f)
                except Undecided as u:
                    ck.undec(site, str(u), f)
                    continue
                ck.req(e is None, site, '%s has access to the parts of %s and lets everyone '
                       'change %s' % (f['q'], last(q), show(e.obj) if e else ''), e or f)


@rule('P07', 'modifications', 'Only transactions create and apply modifications of a model.')
def modifications(ck):
    q = V + 'detail::FeatureModelModification'
    r = ck.need(ck.fx.recs.get(q), 'no modifications')
    for m in r.get('methods', ()):
        if m['n'] in ('exec',) or m['n'].startswith('~') or m['n'] == last(q):
            continue
        ck.req(m['acc'] != 'public', '%s::%s' % (last(q), m['n']),
               'everyone can use %s to change a model without a transaction' % m['n'],
               where(ck, q))
    for x in r.get('friends', ()):
        ck.req(x.startswith(V + 'detail::FeatureModel') and x.endswith('TransactionBase'),
               '%s: friend %s' % (last(q), last(x)),
               '%s can modify models without a transaction' % x, where(ck, q))
    for c, rc in sorted(ck.fx.recs.items()):
        if not any(b['n'] == q for b in rc.get('bases', ())):
            continue
        for m in rc.get('methods', ()):
            if m['n'] == last(c).split('<')[0]:
                ck.req(m['acc'] != 'public', '%s: creation' % last(c),
                       'everyone can create a modification %s and apply it to a model '
                       'without a transaction' % last(c), where(ck, c))
