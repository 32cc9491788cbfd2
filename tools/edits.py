"""Changes to a machine that must not change what it does."""
import copy

import gen


def first_marks(c):
    """index of the row that makes each initial state one"""
    out = {}
    for k, x in enumerate(c['rows']):
        if x['mark'] and x['s'] not in out:
            out[x['s']] = k
    return out


def respell(spec, style, mark, rng, repeat):
    s = copy.deepcopy(spec)
    for c in s['states']:
        firsts = first_marks(c) if c['composite'] else {}
        for k, x in enumerate(c['rows']):
            is_first = firsts.get(x['s']) == k and x['sk'] == 'state'
            may = x['sk'] == 'state' and x['s'] in firsts and k >= firsts[x['s']]
            x['mark'] = mark(rng) if is_first or (may and repeat(rng)) else ''
            want = style(rng)
            x['style'] = want if want in gen.styles_of(x) else 'infix'
        for x in c['internal']:
            x['style'] = 'infix' if style(rng) in ('infix', 'prefix') else 'tuple'
    return s


def spellings(spec, rng):
    out = [('infix', respell(spec, lambda r: 'infix', lambda r: 'star', rng, lambda r: False)),
           ('tuple', respell(spec, lambda r: 'tuple', lambda r: 'initial', rng, lambda r: False)),
           ('prefix', respell(spec, lambda r: 'prefix', lambda r: 'star', rng, lambda r: True)),
           ('mixed', respell(spec, lambda r: r.choice(['infix', 'tuple', 'prefix']), lambda r: r.choice(['star', 'initial']),
                             rng, lambda r: r.random() < 0.4))]
    return [(k, s) for k, s in out if not gen.check(s)]


def competition(x):
    """rows with equal keys compete for the same event in the same configuration"""
    return ('inner' if x['sk'] == 'state' else 'pseudo', x['sp'], x['s'], x['ev'])


def reorder(spec, rng):
    """Any order of rows that keeps the order of competing rows and of initial states."""
    s = copy.deepcopy(spec)
    for c in s['states']:
        rows = c['rows']
        if len(rows) < 2:
            continue
        firsts = set(first_marks(c).values())
        n = len(rows)
        before = [set() for _ in range(n)]
        for b in range(n):
            for a in range(b):
                same = competition(rows[a]) == competition(rows[b])
                marks = a in firsts and b in firsts
                # a repeated mark stays behind the first one
                again = rows[a]['mark'] and rows[b]['mark'] and rows[a]['s'] == rows[b]['s']
                if same or marks or again:
                    before[b].add(a)
        todo, order = set(range(n)), []
        while todo:
            k = rng.choice(sorted(k for k in todo if not before[k] & todo))
            order.append(k)
            todo.remove(k)
        c['rows'] = [rows[k] for k in order]
    return s


def unreachable(spec, rng):
    """Adds states nothing leads to, using ingredients the machine may not have had before."""
    s = copy.deepcopy(spec)
    st = s['states']
    n_ev = len(s['events'])
    root = st[0]
    guards = [x['g'] for q in st for x in q['rows'] + q['internal']]
    acts = [a for q in st for x in q['rows'] + q['internal'] for a in x['a']]
    nxt = dict(g=max(guards + [-1]) + 1, a=max([a for a in acts if a >= 0] + [-1]) + 1)

    def new(parent, composite, region):
        q = dict(id=len(st), type=len(st), parent=parent, composite=composite, region=region, entry=False, exit=False, ndc=False,
                 defers=[], internal=[], rows=[], initials=[])
        st.append(q)
        return q

    def take(k):
        nxt[k] += 1
        return nxt[k] - 1

    def row(sk, sp, src, ev, dk, dp, dst, g=False, a=False, mark=''):
        return dict(sk=sk, sp=sp, s=src, ev=ev, g=take('g') if g else -1, ak='plain' if a else 'none',
                    a=[take('a')] if a else [], dk=dk, dp=dp, d=dst, style='infix', mark=mark)

    def ev():
        return rng.randrange(n_ev)

    reg = rng.randrange(len(root['initials']))
    x = new(0, False, reg)
    extra = [row('state', -1, x['id'], ev(), 'state', -1, x['id'], rng.random() < 0.5, rng.random() < 0.5)]
    u = None
    if rng.random() < 0.7:
        u = new(0, True, reg)
        n_reg = rng.choice([1, 2, 3]) if len(root['initials']) == 1 else 1
        for g in range(n_reg):
            a, b = new(u['id'], False, g), new(u['id'], False, g)
            u['initials'].append(a['id'])
            # a state of the machine can be a child of the new composite, too
            for q in (a, b):
                base = [k for k in spec['states'] if not k['composite'] and k['type'] == k['id'] and not k['ndc']
                        and not any(o['type'] == k['id'] and o['parent'] == u['id'] for o in st)]
                if base and rng.random() < 0.35:
                    q['type'] = rng.choice(base)['id']
            u['rows'].append(row('state', -1, a['id'], ev(), 'state', -1, b['id'], False, True, 'star'))
        first = u['initials'][0]
        extra.append(row('state', -1, x['id'], ev(), 'state', -1, u['id'], rng.random() < 0.5, True))
        if rng.random() < 0.5:
            extra.append(row('state', -1, x['id'], ev(), 'history', u['id'], -1))
        if rng.random() < 0.4:
            extra.append(row('state', -1, x['id'], ev(), 'entry', u['id'], first))
        if rng.random() < 0.4:
            e = [k for k in range(n_ev) if k != u['rows'][0]['ev']]
            if e:
                extra.append(row('exit', u['id'], first, rng.choice(e), 'state', -1, x['id']))
        extra.append(row('state', -1, u['id'], ev(), 'state', -1, x['id']))
    if rng.random() < 0.5:
        extra.append(row('state', -1, x['id'], gen.ANON, 'state', -1, x['id'], True, True))
    if rng.random() < 0.5:
        x['defers'] = [ev()]
    x['entry'], x['exit'] = rng.random() < 0.5, rng.random() < 0.5
    if rng.random() < 0.4:
        x['internal'].append(dict(ev=ev(), g=-1, a=[take('a')], style='infix'))
    for r in extra:
        root['rows'].insert(rng.randint(0, len(root['rows'])), r)
    return s


def irrelevant(spec, rng):
    out = [('original', spec), ('reordered', reorder(spec, rng)), ('unreachable parts', unreachable(spec, rng)),
           ('both', unreachable(reorder(spec, rng), rng))]
    return [(k, s) for k, s in out if not gen.check(s)]
