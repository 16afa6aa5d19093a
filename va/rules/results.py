"""Results, optional values and looked-up nodes are checked before use (P30)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V


def bare(q):
    return q.split('<')[0] if 'operator' not in q else q


class Run:
    """all library functions, each on its own"""
    def __init__(self, ck):
        self.fns = [f for f in ck.fx.fns.values() if f.get('body') is not None and
                    ('/lib/' in f['file'] or '/include/vara/' in f['file'])]
        self.paths, self.failed = {}, {}
        for f in self.fns:
            try:
                self.paths[f['key']] = ck.paths(f, eng=self.engine(ck, lambda g: False))
            except Undecided as e:
                self.failed[f['key']] = str(e)
        self.maynull = set()
        for f in self.fns:
            if (f.get('const') and not f['params']) or f['rt'] in ('bool', 'int', 'void'):
                continue                    # an accessor of the structure, not a lookup
            if any(p.kind == 'ret' and p.ret == NULL for p in self.paths.get(f['key'], ())):
                self.maynull.add(short(f['q']))

        for f in self.fns:                  # only what matters for large functions
            if f['key'] in self.failed:
                en = self.engine(ck, lambda g: False)
                en.join = lambda a: a[0] == 'nn' and (a[1][0] == 'ok' or a[1][0] == 'call' and
                                                      bare(a[1][1]) in self.maynull)
                try:
                    self.paths[f['key']] = ck.paths(f, eng=en)
                    del self.failed[f['key']]
                except Undecided:
                    pass

    @staticmethod
    def engine(ck, inline, depth=3, virt=False):
        return Engine(ck.fx, derefs=True, inline=inline, virtual_inline=virt,
                      record=lambda e: e.kind == 'dropped' or fresh(e.obj) or
                      e.kind == 'deref' and (e.res is False or e.q == 'res' or
                                             e.obj[0] in ('call', 'end')),
                      depth=depth, max_paths=6000,
                      join=lambda a: a[0] == 'isa' or a[0] == 'nn' and (
                          a[1][0] in ('ok', 'mapval', 'mapent', 'found') or
                          a[1][0] == 'call' and a[1][1].startswith('vara::')))


def prepared(ck):
    if not hasattr(ck.fx, 'p30'):
        ck.fx.p30 = Run(ck)
    r = ck.fx.p30
    ck.analysed |= set(r.paths)
    ck.npaths += sum(len(p) for p in r.paths.values())
    return r


def fresh(t):
    return bool(t) and t[0] == 'new' and last(t[1]) == 'FeatureModelBuilder'


def nothing_to_fail(p, e):
    """a builder without any requests builds the empty model"""
    return e.obj[0] == 'call' and fresh(e.obj[2]) and last(e.obj[1]) == 'buildFeatureModel' and \
        len({x.q for x in p.events if x.kind == 'call' and x.obj == e.obj[2]}) == 1


def known_there(p, t):
    """the path knows that an equal call gave a value"""
    u = unk(t)
    for a, v in p.facts.items():
        if a[0] != 'nn':
            continue
        x = a[1][1] if a[1][0] == 'ok' else a[1]
        if v and unk(x) == u:
            return True
    return False


def confirm(ck, f, e):
    """the use also happens unchecked if the functions of the same file are followed"""
    try:
        ps = ck.paths(f, eng=Run.engine(ck, lambda g: g['file'] == f['file'], 2))
    except Undecided:
        return None
    u = unk(e.obj)
    return any(x.kind == 'deref' and x.line == e.line and not known_there(p, x.obj)
               for p in ps for x in p.events)


def judge(ck, sel, what):
    r = prepared(ck)
    n = 0
    for f in r.fns:
        if f['key'] in r.failed:
            ck.undec(short(f['q']), r.failed[f['key']])
            continue
        seen = set()
        for p in r.paths[f['key']]:
            for e in p.events:
                if not sel(r, e):
                    continue
                k = (unk(e.obj), e.line)
                if k in seen or e.res is not False and known_there(p, e.obj) or \
                        nothing_to_fail(p, e):
                    continue
                seen.add(k)
                site = '%s in %s' % (what, short(f['q'])[len(V):] if short(
                    f['q']).startswith(V) else short(f['q']))
                c = confirm(ck, f, e)
                if c is None:
                    ck.undec(site, 'use of %s' % show(e.obj))
                elif c:
                    ck.bad(site, '%s is used %s' % (show(unk(e.obj)), 'where it is known to be '
                           'absent' if e.res is False else 'without a check'), e)
                    n += 1
                else:
                    ck.good(site)
    return r


@rule('P30', 'result-values', 'The value of a result is used only on paths on which the '
      'result is known to be a success.')
def values(ck):
    r = judge(ck, lambda r, e: e.kind == 'deref' and e.q == 'res' and e.obj[0] != 'param',
              'result')
    count(ck, r, 'vara::Result<')


def count(ck, r, rt):
    n = set()
    for f in r.fns:
        for c in calls_of(f['body']):
            if (c.get('fn') or {}).get('rt', '').startswith(rt):
                n.add((f['file'], c.get('l')))
    for x in n:
        ck.good('%s:%s' % x)
    ck.need(n, 'no calls that return ' + rt)


def calls_of(n):
    if isinstance(n, dict):
        if n.get('k') == 'call':
            yield n
        for v in n.values():
            yield from calls_of(v)
    elif isinstance(n, list):
        for v in n:
            yield from calls_of(v)


@rule('P30', 'lookups', 'What a lookup, a parser or a builder returns is used only on paths '
      'on which it is known to be there.')
def lookups(ck):
    r = judge(ck, lambda r, e: e.kind == 'deref' and e.q != 'res' and (
        e.obj[0] == 'call' and bare(e.obj[1]) in r.maynull or
        e.res is False and e.obj[0] == 'call' and e.obj[1].startswith(V) and
        (e.obj[3] or not e.obj[2]) or
        e.obj[0] == 'end'), 'lookup')
    n = set()
    for f in r.fns:
        for c in calls_of(f['body']):
            q = short((c.get('fn') or {}).get('q') or '')
            if bare(q) in r.maynull:
                n.add((f['file'], c.get('l')))
    for x in n:
        ck.good('%s:%s' % x)
    ck.need(n, 'lookups')


@rule('P30', 'failures', 'If an operation that returns a result fails, a caller that can fail '
      'fails as well.')
def failures(ck):
    r = prepared(ck)
    for f in r.fns:
        rt = f['rt']
        if f['key'] in r.failed or not (rt.startswith('vara::Result<') or rt == 'bool' or
                                        rt.startswith('std::unique_ptr<')):
            continue
        for p in r.paths[f['key']]:
            if p.kind != 'ret':
                continue
            for a, v in p.facts.items():
                if a[0] != 'nn' or v or a[1][0] != 'ok' or a[1][1][0] != 'call':
                    continue
                t = a[1][1]
                site = '%s after %s' % (short(f['q']), short(t[1]))
                x = p.ret
                while x[0] in ('Err', 'some'):
                    if x[0] == 'Err':
                        break
                    x = x[1]
                if x in (NULL, FALSE) or x[0] in ('Err', 'err') or x == t or \
                        any(s and s == ('err', t) for s in walk(x)):
                    ck.good(site)
                elif x[0] in ('Ok', 'new') or x == TRUE:
                    ck.bad(site, 'success is reported (%s) although %s failed' % (
                        show(x)[:60], show(unk(t))[:80]), f)
                else:
                    ck.undec(site, 'returns %s' % show(x)[:80])


@rule('P30', 'dropped', 'A function that returns a result does not drop the result of an '
      'operation that can fail there.')
def dropped(ck):
    r = prepared(ck)
    n = 0
    for f in r.fns:
        if not f['rt'].startswith('vara::Result<') or f['key'] in r.failed:
            continue
        n += 1
        site = short(f['q'])
        drops = {e.line: e for p in r.paths[f['key']] for e in p.events if e.kind == 'dropped'}
        for l, e in drops.items():
            try:
                ps = ck.paths(f, eng=Run.engine(ck, None, 4, True))
            except Undecided as x:
                ck.undec(site, str(x))
                continue
            left = [x for p in ps for x in p.events if x.kind == 'dropped' and x.line == l and
                    x.fn == f['q']]
            if left:
                ck.bad(site, 'the result of %s is dropped' % short(e.q), e)
        if not drops:
            ck.good(site)
    ck.need(n, 'functions that return results')
