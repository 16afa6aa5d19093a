"""Texts and pictures of features and feature models (P36)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .order import clean
from .location import plain
from .writer import unv

FEATURE = V + 'Feature'
RANGE = V + 'FeatureSourceRange'
OPAQUE = [RANGE + '::toString', FEATURE + '::getParentFeature', FEATURE + '::isRoot',
          V + 'Constraint::getRoot']
CUT = {'brk', 'lret'}


def run(ck, f, **kw):
    kw.setdefault('opaque', OPAQUE)
    for p in clean(ck, f, mark_loops='ret', streams=True, **kw):
        if not any(a[0] == 'isa' and v and p.facts.get(('nn', a[2])) is False or
                   a[0] == 'empty' and a[1][0] == 'str' and v == bool(a[1][1])
                   for a, v in p.facts.items()):
            yield p


class Written:
    """what a path writes: pieces (term, loops, event) in order"""

    def __init__(self, p, start):
        self.p, self.pieces = p, []
        self.by = {}
        self.lost = []
        for e in p.events:
            if e.kind == 'put':
                self.by.setdefault(e.obj, []).append(e)
            elif e.kind == 'call' and e.obj is not None and e.obj[0] == 'sstr' and \
                    last(e.q) in ('str', 'clear', 'seekp') and e.args and last(e.q) != 'clear':
                if self.by.get(e.obj) or e.loops:
                    self.lost.append(e)
                self.by[e.obj] = []
        self.seen = []
        start(self)

    def stream(self, s):
        for e in self.by.get(s, ()):
            for a in e.args:
                self.add(a, e.loops, e)

    def add(self, t, loops, e):
        if t[0] == 'text':
            if t[1] in self.seen:
                raise Undecided('a text that contains itself')
            self.seen.append(t[1])
            for x in self.by.get(t[1], ()):
                for a in x.args:
                    self.add(a, tuple(loops) + tuple(l for l in x.loops if l not in loops), x)
            self.seen.pop()
            return
        u = unv(t)
        if u[0] == 'cat':
            for x in u[1]:
                self.add(x, loops, e)
        elif u[0] == 'int' and 9 <= u[1] < 128:
            self.pieces.append((('str', chr(u[1])), tuple(loops), e))
        elif u != ('str', ''):
            if u[0] == 'call' and last(u[1]) in ('EscapeString', 'trim', 'str', 'EscapeHTML') \
                    and u[3] and any(s and s[0] == 'text' for s in walk(u)):
                for s in walk(u):
                    if s and s[0] == 'text':
                        self.add(s, loops, e)
                return
            self.pieces.append((u, tuple(loops), e))

    def merged(self):
        """pieces with neighbouring literals of the same loop joined"""
        out = []
        for t, l, e in self.pieces:
            if t[0] == 'str' and out and out[-1][0][0] == 'str' and out[-1][1] == l:
                out[-1] = (('str', out[-1][0][1] + t[1]), l, e)
            else:
                out.append((t, l, e))
        return out


def returned(p):
    w = Written(p, lambda w: w.add(p.ret, (), None))
    if any(e.kind == 'call' and last(e.q) in ('append', 'insert', 'push_back') and
           e.obj is not None and e.obj[0] in ('str', 'cat') for e in p.events):
        raise Undecided('the text is built in another way')
    return w


def bare(t):
    """without copies, text conversions and numbering"""
    return unk(plain(t))


def mentions(t, x):
    return any(s == x for s in walk(t) if s)


def elem_of(C):
    return ('elem', C)


def same_elem(t, C):
    t = bare(t)
    return t[0] == 'elem' and t[1] == bare(C)


def shows(w, test):
    return [n for n, (t, l, e) in enumerate(w.merged()) if t[0] != 'str' and
            any(s and test(s) for s in walk(bare(t)))]


def visited(p, C):
    """True/False: the elements of C are gone through, or there are none"""
    for a, v in p.facts.items():
        if a[0] == 'empty' and bare(a[1]) == C:
            return not v
    return None


def stops(p, C):
    return [e for e in p.events if e.kind in CUT and e.args and bare(e.args[0]) == C]


def fields(ck):
    R = ck.fx.recs

    def one(cls, pat, not_=None):
        r = [f['q'] for f in R[cls]['fields'] if re.search(pat, f['t']) and
             not (not_ and re.search(not_, f['t']))]
        if len(r) != 1:
            raise Undecided('field of %s' % last(cls))
        return r[0]
    return {'locations': one(FEATURE, r'vector<.*FeatureSourceRange'),
            'opt': one(FEATURE, r'^(const )?bool$')}


def name_of(ck):
    for f in ck.fns(FEATURE + '::getName'):
        for p in clean(ck, f):
            r = bare(p.ret)
            if r[0] == 'fld' and r[1] == THIS:
                return r[2]
    raise Undecided('name of a feature')


def units(ck, suffix, cls=None):
    r = [f for f in ck.fx.fns.values() if f.get('body') is not None and
         (short(f['q']) == suffix)]
    if not r:
        raise Undecided('no %s' % suffix)
    return r


def common(ck, f, unit, ps, F, name):
    """parts of the text every kind of feature shows"""
    locs = ('fld', THIS, F['locations'])
    edges = ('edges', THIS)
    par = None
    for p in ps:
        w = returned(p)
        ms = w.merged()
        own = [n for n, (t, l, e) in enumerate(ms) if bare(t) == ('fld', THIS, name) and not l]
        ck.req(not w.lost, unit, 'a part of the text is discarded', w.lost[0] if w.lost else f)
        ck.req(len(own) == 1, unit, 'the name is shown %d times' % len(own), f)
        opt = p.facts.get(('nn', ('fld', THIS, F['opt'])))
        lits = ''.join(t[1] if t[0] == 'str' else '\0' for t, l, e in ms)
        if opt is not None:
            yes, no = 'true' in lits, 'false' in lits
            if yes or no:
                ck.req(yes == opt and no == (not opt), unit, 'shows optional %s if it is %s' % (
                    'true' if yes else 'false', 'optional' if opt else 'mandatory'), f)
            else:
                ck.bad(unit, 'does not say whether the feature is optional', f)
        elif not any(bare(t) == ('fld', THIS, F['opt']) for t, l, e in ms):
            ck.bad(unit, 'does not say whether the feature is optional', f)
        v = visited(p, locs)
        got = shows(w, lambda s: same_elem(s, locs))
        if v:
            ck.req(len(got) == 1 and not stops(p, locs), unit,
                   'not every location is shown', f)
            ck.req(all(any(s and s[0] == 'call' and last(s[1]) == 'toString'
                           for s in walk(ms[n][0])) for n in got), unit,
                   'a location is not shown in full', f)
        elif v is None:
            ck.req(bool(got), unit, 'shows no locations, whether there are any or not', f)
        else:
            ck.good(unit)
        # the parent
        pr = [a for a in p.facts if a[0] == 'nn' and a[1][0] == 'call' and
              last(a[1][1]) == 'getParentFeature' and a[1][2] == THIS]
        root = [a for a in p.facts if a[0] == 'call' and last(a[1]) == 'isRoot']
        if pr:
            has = p.facts[pr[0]]
            g = shows(w, lambda s: s[0] == 'fld' and s[2] == name and s[1][0] == 'call' and
                      last(s[1][1]) == 'getParentFeature')
            ck.req((len(g) == 1) == has, unit, 'the parent is shown if there is %s' % (
                'one' if has else 'none'), f)
        elif root:
            ck.undec(unit, 'parent')
        else:
            ck.bad(unit, 'the parent feature is not looked at', f)
        # the children
        kids = None
        for a in p.facts:
            if a[0] == 'empty' and (bare(a[1]) == edges or
                                    bare(a[1])[0] == 'kids' and bare(a[1])[2] == THIS):
                kids = bare(a[1])
        if kids is None:
            ck.bad(unit, 'the children are not looked at', f)
        elif not p.facts.get(next(a for a in p.facts if a[0] == 'empty' and
                                  bare(a[1]) == kids)):
            isf = [v for a, v in p.facts.items() if a[0] == 'isa' and a[1] == 'Feature' and
                   same_elem(a[2], kids)]
            g = shows(w, lambda s: s[0] == 'fld' and s[2] == name and same_elem(s[1], kids))
            need = isf[0] if isf else True
            ck.req((len(g) == 1) == need and not stops(p, kids), unit,
                   'a child %s shown' % ('feature is not' if need else 'group is'), f)
            if own and g:
                ck.req(own[0] < g[0], unit, 'the children are shown before the feature', f)
        else:
            ck.good(unit)


@rule('P36', 'features', 'The text of a feature shows its name, whether it is optional, every '
      'location, its parent feature if there is one and every child feature; this for every '
      'kind of feature.')
def features(ck):
    F, name = fields(ck), name_of(ck)
    R = ck.fx.recs
    for cls in sorted(R):
        if cls != FEATURE and FEATURE not in supers(ck, cls):
            continue
        for f in ck.fx.fns.values():
            if f.get('body') is None or f['q'] != cls + '::toString':
                continue
            common(ck, f, last(cls) + '::toString', list(run(ck, f)), F, name)
            for p in run(ck, f):
                cut = [e for e in p.events if e.kind in ('lret', 'throw')]
                ck.req(not cut, last(cls) + '::toString', 'ends before everything is shown',
                       cut[0] if cut else f)


def supers(ck, cls):
    out, todo = set(), [cls]
    while todo:
        for b in ck.fx.recs.get(todo.pop(), {}).get('bases', ()):
            n = b['n'] if isinstance(b, dict) else b
            if n not in out:
                out.add(n)
                todo.append(n)
    return out


@rule('P36', 'values', 'The text of a numeric feature shows the bounds of its range, the lower '
      'one first, or every value of its list in order.')
def values(ck):
    N = V + 'NumericFeature'
    for f in units(ck, N + '::toString'):
        unit = 'NumericFeature::toString'
        vals = [x['q'] for x in ck.fx.recs[N]['fields'] if 'variant' in x['t']]
        if len(vals) != 1:
            raise Undecided('values of a numeric feature')
        VV = ('fld', THIS, vals[0])
        seen = set()
        for p in run(ck, f):
            w = returned(p)
            ms = w.merged()
            kind = None
            for a, v in p.facts.items():
                if a[0] == 'holds' and a[2] == VV:
                    kind = ('pair' in a[1]) == v
            if kind is None:
                ck.bad(unit, 'the kind of values is not looked at', f)
                continue
            seen.add(kind)
            if kind:
                lo = shows(w, lambda s: _bound(s, VV, ('first', '0')))
                hi = shows(w, lambda s: _bound(s, VV, ('second', '1')))
                ck.req(len(lo) == 1 and len(hi) == 1 and lo[0] < hi[0], unit,
                       'shows the lower bound %d and the upper bound %d times%s' % (
                           len(lo), len(hi), '' if not (lo and hi) or lo[0] < hi[0]
                           else ', the upper one first'), f)
                if lo and hi and lo[0] < hi[0]:
                    sep = ''.join(t[1] for t, l, e in ms[lo[0] + 1:hi[0]] if t[0] == 'str')
                    ck.req(bool(re.search(r'\D', sep)), unit, 'the bounds are not separated', f)
                    lab = ''.join(t[1] for t, l, e in ms[:lo[0]] if t[0] == 'str')
                    ck.req(not re.search(r'max', lab[-12:], re.I) and
                           not re.search(r'\bmin', sep[-12:], re.I), unit,
                           'the bounds are labelled the wrong way round', f)
            else:
                C = [a for a in p.facts if a[0] == 'empty' and bare(a[1])[0] == 'get' and
                     bare(a[1])[2] == VV]
                if not C:
                    ck.bad(unit, 'the values are not gone through', f)
                    continue
                c = bare(C[0][1])
                g = shows(w, lambda s: same_elem(s, c))
                if p.facts[C[0]]:
                    ck.good(unit)
                else:
                    ck.req(len(g) == 1 and not stops(p, c), unit, 'not every value is shown', f)
                    if g:
                        around = [t for t, l, e in ms[max(0, g[0] - 1):g[0] + 2]
                                  if t[0] == 'str' and l]
                        ck.req(any(re.search(r'[^\d-]', t[1]) for t in around) or
                               not ms[g[0]][1], unit, 'the values are not separated', f)
        ck.req(seen == {True, False}, unit, 'one kind of values is not shown', f)


def _bound(s, VV, names):
    if s[0] == 'fld' and s[1][0] == 'get' and s[1][2] == VV and last(s[2]) == names[0]:
        return True
    return s[0] == 'tupget' and str(s[1]) == names[1] and s[2][0] == 'get' and s[2][2] == VV


@rule('P36', 'dump', 'Dumping a feature model writes the text of every one of its features.')
def dump(ck):
    for f in units(ck, V + 'Feature::dump'):
        for p in run(ck, f):
            g = [e for e in p.events if e.kind == 'put' and
                 any(a and a[0] == 'call' and last(a[1]) == 'toString' and a[2] == THIS
                     for t in e.args for a in walk(t))]
            ck.req(len(g) == 1, 'Feature::dump', 'writes the text %d times' % len(g), f)
    for f in units(ck, V + 'FeatureModel::dump'):
        for p in run(ck, f):
            C = None
            for a, v in p.facts.items():
                if a[0] == 'empty':
                    C = bare(a[1])
            if C is None:
                ck.bad('FeatureModel::dump', 'the features are not gone through', f)
                continue
            ck.req(C[0] in ('fld', 'rng') and mentions(C, THIS), 'FeatureModel::dump',
                   'goes through %s' % show(C), f)
            if not visited(p, C):
                continue
            g = [e for e in p.events if e.kind == 'put' and
                 any(a and a[0] == 'call' and last(a[1]) == 'toString' and
                     mentions(bare(a), ('elem', C)) for t in e.args for a in walk(t))]
            ck.req(len(g) == 1 and not stops(p, C) and
                   not [a for a in p.facts if mentions(bare(a), ('elem', C)) and
                        a[0] not in ('nn',)],
                   'FeatureModel::dump', 'not every feature is written', f)


# ---------------------------------------------------------------- the graph
def graph_paths(ck):
    g = [f for f in ck.fx.fns.values() if f.get('body') is not None and
         short(f['q']).startswith('llvm::GraphWriter<') and 'FeatureModel' in f['q'] or
         short(f['q']) == 'llvm::GraphWriter::writeGraph' and f.get('body') is not None]
    top = [f for f in g if last(f['q']) == 'writeGraph']
    if len(top) != 1:
        raise Undecided('the picture of a feature model')
    return top[0]


class Graph:
    def __init__(self, ck):
        self.ck = ck
        self.top = graph_paths(ck)
        self.cls = self.top['cls']
        self.kw = dict(opaque=OPAQUE + [
            f['q'] for f in ck.fx.fns.values() if last(f['q']) == 'toHTML'], depth=12)
        self.tops = list(run(ck, self.top, **self.kw))
        # functions that describe a node, calling themselves for its children
        rec = {e.q for p in self.tops for e in p.events if e.kind == 'call' and
               self.own(e.q)}
        self.rec = [f for f in ck.fx.fns.values() if f.get('body') is not None and
                    f['q'] in rec or short(f['q']) in rec and f.get('body') is not None]
        if len(self.rec) != 1:
            raise Undecided('how the nodes are gone through')
        self.rec = self.rec[0]

    def own(self, q):
        return q.startswith('llvm::GraphWriter')

    def text(self, p):
        """pieces written to the stream of the writer, with recursive calls"""
        w = Written(p, lambda w: None)
        for e in p.events:
            if e.kind == 'put' and e.obj[0] != 'sstr':
                for a in e.args:
                    w.add(a, e.loops, e)
            elif e.kind == 'call' and (e.q == self.rec['q'] or
                                       short(e.q) == short(self.rec['q'])):
                w.pieces.append((('node', e.args), e.loops, e))
        return w


def statements(ms):
    """DOT statements of a sequence of pieces: lists of tokens between ; { }"""
    out, cur = [], []
    for t, l, e in ms:
        if t[0] == 'node':
            if cur:
                out.append(('stmt', cur))
                cur = []
            out.append(('child', t[1], l, e))
            continue
        if t[0] == 'str':
            s = t[1]
            # statements end outside of labels only
            for part in re.split(r'(;|\{|\})', s):
                if part in (';', '{', '}'):
                    if cur:
                        out.append(('stmt', cur))
                    cur = []
                    if part != ';':
                        out.append((part, l, e))
                elif part.strip():
                    cur.append((('str', part.strip()), l, e))
        else:
            cur.append((t, l, e))
    if cur:
        out.append(('stmt', cur))
    return out


def literal(st):
    return ''.join(t[1] if t[0] == 'str' else '\0' for t, l, e in st)


def values_of(st):
    return [bare(t) for t, l, e in st if t[0] != 'str']


def kids_of(p, N):
    """collection of the children of node N gone through on a path"""
    for a, v in p.facts.items():
        if a[0] == 'empty':
            c = bare(a[1])
            if c in (N, ('edges', N)) or c[0] == 'kids' and c[2] == N:
                yield c, not v


def feature_parts(ck, unit, p, N, st, f, F, name, cons):
    ts = values_of(st)
    got = [t for t in ts if any(s == ('fld', N, name) for s in walk(t) if s)]
    ck.req(len(got) == 1, unit, 'the name of a feature is shown %d times' % len(got), f)
    for fld, what, full in ((cons, 'constraint', 'toHTML'), (F['locations'], 'location',
                                                            'toString')):
        C = ('fld', N, fld)
        v = visited(p, C)
        g = [t for t in ts if any(s == ('elem', C) for s in walk(t) if s)]
        if v is None:
            ck.bad(unit, 'the %ss of a feature are not looked at' % what, f)
        elif v:
            ck.req(len(g) == 1 and not stops(p, C), unit,
                   'not every %s of a feature is shown' % what, f)
            ck.req(all(any(s and s[0] == 'call' and last(s[1]) == full for s in walk(t))
                           for t in g), unit, 'a %s is not shown in full' % what, f)
            if what == 'constraint':
                ck.req(all(any(s and s[0] == 'call' and last(s[1]) == 'getRoot'
                               for s in walk(t)) for t in g), unit,
                       'shows a part of a constraint', f)
        else:
            ck.good(unit)


@rule('P36', 'graph', 'The picture of a feature model starts at the root and shows, for every '
      'node, the node once, every child with its own subtree and exactly one edge from the '
      'node to the child.')
def graph(ck):
    G = Graph(ck)
    top = G.top
    unit = 'writeGraph'
    for p in G.tops:
        ms = G.text(p).merged()
        lit = ''.join(t[1] if t[0] == 'str' and not l else '' for t, l, e in ms)
        ck.req(lit.lstrip().startswith('digraph'), unit, 'does not start a graph', top)
        ck.req(lit.rstrip().endswith('}'), unit, 'the graph is not closed', top)
        depth, low = 0, 0
        for s in statements(ms):
            if s[0] == '{':
                depth += 1
            elif s[0] == '}':
                depth -= 1
                low = min(low, depth)
        ck.req(depth == 0 and low == 0, unit, 'braces are not balanced', top)
    rec = G.rec
    # from where: the root of the model, unconditionally
    for p in run(ck, top, **dict(G.kw, opaque=G.kw['opaque'] + [rec['q']])):
        cs = [e for e in p.events if e.kind == 'call' and short(e.q) == short(rec['q'])]
        ck.req(len(cs) == 1 and not cs[0].loops and is_root(ck, cs[0].args[0]), unit,
               'starts at %s' % [show(e.args[0]) for e in cs], cs[0] if cs else top)
    unit = last(rec['q'])
    N = ('param', 0, rec['params'][0]['n'])
    ps = list(run(ck, rec, **G.kw))
    F, name = fields(ck), name_of(ck)
    cons = [x['q'] for x in ck.fx.recs[FEATURE]['fields']
            if 'Constraint' in x['t'] and 'NonBoolean' not in x['t'] and 'Mixed' not in x['t']
            and 'Boolean' not in x['t']]
    for p in ps:
        w = G.text(p)
        ck.req(not w.lost, unit, 'a part of a label is discarded', w.lost[0] if w.lost else rec)
        ss = statements(w.merged())
        own = [s for s in ss if s[0] == 'stmt' and is_node(s[1], N)]
        ck.req(len(own) == 1 and not any(l for t, l, e in own[0][1][:1]), unit,
               'a node is described %d times' % len(own), rec)
        ks = list(kids_of(p, N))
        if not ks:
            ck.bad(unit, 'the children of a node are not looked at', rec)
            continue
        if len({v for c, v in ks}) > 1:
            continue                                   # not possible
        kids = {c for c, v in ks}
        has = ks[0][1]
        down = [s for s in ss if s[0] == 'child']
        edges = [s for s in ss if s[0] == 'stmt' and '->' in literal(s[1])]
        isk = lambda t: bare(t)[0] == 'elem' and bare(t)[1] in kids
        if has:
            ck.req(len(down) == 1 and isk(down[0][1][0]) and bool(down[0][2]), unit,
                   'goes on with %s' % [show(s[1][0]) for s in down], rec)
            ck.req(not [c for c in kids if stops(p, c)], unit, 'not every child is shown', rec)
            ck.req(len(edges) == 1, unit, '%d edges to a child' % len(edges), rec)
            for s in edges:
                vs = values_of(s[1])
                ck.req(len(vs) >= 2 and vs[0] == N and vs[1][0] == 'elem' and vs[1][1] in kids,
                       unit, 'an edge from %s' % ' to '.join(show(v) for v in vs[:2]), rec)
        else:
            ck.req(not down and not edges, unit, 'shows children that are not there', rec)
        isf = [v for a, v in p.facts.items() if a[0] == 'isa' and a[1] == 'Feature' and
               a[2] == N]
        if isf and isf[0] and own and cons:
            feature_parts(ck, unit, p, N, own[0][1], rec, F, name, cons[0])
        elif own and not isf:
            ck.bad(unit, 'the kind of a node is not looked at', rec)
    depths(ck, ps, unit, rec)


def depths(ck, ps, unit, rec):
    for p in ps:
        for a in p.facts:
            if a[0] == 'lt' and any(s and s[0] == 'param' for s in walk(a)):
                ck.bad(unit, 'depends on %s' % show(a), rec)


def is_root(ck, t):
    t = bare(t)
    if t[0] == 'call':
        return last(t[1]) == 'getRoot'
    for f in ck.fns(V + 'FeatureModel::getRoot'):
        for p in clean(ck, f):
            if bare(p.ret)[0] == 'fld' and t[0] == 'fld' and t[2] == bare(p.ret)[2]:
                return True
    return False


def is_node(st, N):
    """node_X [ ... ]"""
    l = literal(st)
    vs = values_of(st)
    return bool(vs) and vs[0] == N and '[' in l and '->' not in l and 'cluster' not in l \
        and l.startswith('node')


@rule('P36', 'edges', 'The edge to a feature shows whether it is optional, the edge to a group '
      'differs from both, and a group is shown with its own kind.')
def edges(ck):
    G = Graph(ck)
    rec, unit = G.rec, last(G.rec['q'])
    N = ('param', 0, rec['params'][0]['n'])
    F = fields(ck)
    heads, kinds = {}, {}
    for p in run(ck, rec, **G.kw):
        ss = statements(G.text(p).merged())
        kids = {c for c, v in kids_of(p, N) if v}
        for s in ss:
            if s[0] == 'stmt' and '->' in literal(s[1]) and kids:
                lit = literal(s[1])
                tail = lit[lit.index('->'):]
                isf = [v for a, v in p.facts.items() if a[0] == 'isa' and a[1] == 'Feature' and
                       bare(a[2])[0] == 'elem' and bare(a[2])[1] in kids]
                opt = [v for a, v in p.facts.items() if a[0] == 'nn' and a[1][0] == 'fld' and
                       a[1][2] == F['opt'] and bare(a[1][1])[0] == 'elem']
                if isf and isf[0]:
                    if not opt:
                        ck.bad(unit, 'the edge does not depend on whether the feature is '
                               'optional', rec)
                        continue
                    key = 'optional' if opt[0] else 'mandatory'
                elif isf:
                    key = 'group'
                else:
                    ck.undec(unit, 'kind of the child')
                    continue
                heads.setdefault(key, set()).add(tail)
            if s[0] == 'stmt' and is_node(s[1], N):
                lit = literal(s[1])
                k = [a[2] for a, v in p.facts.items() if a[0] == 'eq' and v and
                     a[2][0] == 'enum' and 'Relationship' in a[2][1]]
                nk = [a[2] for a, v in p.facts.items() if a[0] == 'eq' and not v and
                      a[2][0] == 'enum' and 'Relationship' in a[2][1]]
                isf = p.facts.get(('isa', 'Feature', N))
                isr = p.facts.get(('isa', 'Relationship', N))
                if isf:
                    kinds.setdefault('feature', set()).add(re.sub(r'label=.*', '', lit, flags=re.S))
                elif isr and k:
                    kinds.setdefault(last(k[0][1]), set()).add(lit)
    names = [('optional', 'mandatory'), ('optional', 'group'), ('mandatory', 'group')]
    for a, b in names:
        if a not in heads or b not in heads:
            ck.undec(unit, 'edges to %s' % (a if a not in heads else b))
            continue
        ck.req(not heads[a] & heads[b], unit, 'edges to %s and %s nodes look the same' % (a, b),
               rec)
    odot = [t for t in heads.get('optional', ()) if 'odot' in t]
    if 'optional' in heads and 'mandatory' in heads:
        ck.req(bool(odot) or not any('odot' in t for t in heads['mandatory']), unit,
               'optional and mandatory features are mixed up', rec)
    alts = [k for k in kinds if 'ALT' in k]
    ors = [k for k in kinds if k.endswith('OR') and 'ALT' not in k]
    for ks, word, other in ((alts, 'ALTERNATIVE', 'OR'), (ors, 'OR', 'ALTERNATIVE')):
        if not ks:
            ck.undec(unit, 'label of %s groups' % word)
            continue
        for lit in kinds[ks[0]]:
            lab = re.search(r'label=\s*"?(\w+)', lit)
            if not lab:
                ck.undec(unit, 'label of a group')
                continue
            ck.req(lab.group(1).upper().startswith(word[:3] if word == 'ALTERNATIVE' else word),
                   unit, 'an %s group is shown as %s' % (word, lab.group(1)), rec)
