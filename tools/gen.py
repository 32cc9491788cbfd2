"""Random well-formed state machines: generation, validation and C++ text.

A machine ("spec") is a JSON-able dict:
  name, events: [{id, payload}], deps: 0..3, handler: bool, set_api: bool
  states: [{id, type (id of the state whose C++ type it has), parent, composite, region, entry, exit, ndc, defers, internal, rows, initials}]
  rows: {sk: state|exit|direct, sp, s, ev, g, ak: none|plain|create|reuse, a: [..],
         dk: state|entry|direct|history, dp, d, style, mark}
Index 0 of states is the root. ev -1 is the completion event, g -1 no guard.
"""
import copy
import json
import re

ANON = -1
LOG = -7      # action hsm::log

DEFAULT = dict(
    depth=2, p_composite=0.5, max_composites=2, leaves=(2, 4), root_leaves=(2, 4),
    p_multi_root=0.0, p_multi_sub=0.0, regions=(2, 3), max_children=6,
    events=(2, 5), rows=(1.2, 2.2), p_guard=0.45, p_action=0.6, p_chain=0.2, p_entry=0.25, p_exit=0.25,
    p_anon=0.0, p_anon_guard=0.5, p_internal=0.0, p_defer=0.0, p_history=0.15, p_entryps=0.15, p_direct=0.15,
    p_exitps=0.2, p_directsrc=0.15, p_outer=0.5, p_ndc=0.0, deps=(0, 0), p_handler=0.3, p_payload=0.5,
    p_self=0.12, p_alt_style=0.35, p_conflict=0.35, p_alias=0.2, p_share_guard=0.0, p_sets=0.0, p_sub_event=0.5, p_log=0.0,
    p_oneplace=0.12, p_iaction=0.8,
)


class Gen:
    def __init__(self, rng, profile):
        self.r = rng
        self.p = dict(DEFAULT)
        self.p.update(profile)
        self.states = []
        self.place = {}  # ingredients that occur in the table of one composite state only
        self.guard = 0
        self.action = 0
        self.bare = set()

    def chance(self, key):
        return self.r.random() < self.p[key]

    def chance_in(self, key, c):
        """chance of an ingredient in the table of composite state c"""
        return self.chance(key) and self.place.get(key, c) == c

    def new_state(self, parent, composite, region):
        s = dict(id=len(self.states), type=len(self.states), parent=parent, composite=composite, region=region, entry=False, exit=False,
                 ndc=False, defers=[], internal=[], rows=[], initials=[])
        self.states.append(s)
        return s

    def build_tree(self):
        r, p = self.r, self.p
        self.composites = 0

        def fill(c, depth, may_multi):
            is_root = c['id'] == 0
            pm = p['p_multi_root'] if is_root else p['p_multi_sub']
            n_reg = 1
            if may_multi and r.random() < pm:
                n_reg = r.randint(*p['regions'])
            c['regions'] = n_reg
            lo, hi = p['root_leaves'] if is_root else p['leaves']
            for reg in range(n_reg):
                n = r.randint(lo, hi)
                if n_reg > 1:
                    n = min(n, 3)
                for _ in range(n):
                    self.new_state(c['id'], False, reg)
            subs = []
            if depth > 0:
                tries = r.randint(1, 2)
                for _ in range(tries):
                    if self.composites < p['max_composites'] and self.chance('p_composite'):
                        self.composites += 1
                        subs.append(self.new_state(c['id'], True, r.randrange(n_reg)))
            for s in subs:
                fill(s, depth - 1, may_multi and n_reg == 1)

        root = self.new_state(-1, True, 0)
        fill(root, p['depth'], True)

    def kids(self, c, region=None, leaf=None):
        return [s for s in self.states if s['parent'] == c and (region is None or s['region'] == region)
                and (leaf is None or s['composite'] != leaf)]

    def new_guard(self, external=True):
        if external and self.guard and self.r.random() < self.p['p_share_guard']:
            return self.r.randrange(self.guard)
        self.guard += 1
        return self.guard - 1

    def new_actions(self):
        n = 1
        if self.chance('p_chain'):
            n = self.r.randint(2, 3)
        out = []
        for _ in range(n):
            out.append(self.action)
            self.action += 1
        return out

    def event(self):
        return self.r.randrange(self.n_events)

    def target(self, c, region):
        """random target within the region: (dk, dp, d)"""
        r = self.r
        opts = self.kids(c, region)
        t = r.choice(opts)
        if not t['composite']:
            return 'state', -1, t['id']
        x = r.random()
        p = self.p
        leaves0 = self.kids(t['id'], None, True)
        pick = [s for s in leaves0 if t['regions'] == 1 or s['region'] == 0]
        if x < p['p_history'] and self.place.get('p_history', c) == c:
            return 'history', t['id'], -1
        x -= p['p_history']
        if x < p['p_entryps']:
            return 'entry', t['id'], r.choice(pick)['id']
        x -= p['p_entryps']
        if x < p['p_direct']:
            return 'direct', t['id'], r.choice(pick)['id']
        return 'state', -1, t['id']

    def make_row(self, c, region, src=None, dst=None):
        r, p = self.r, self.p
        sk, sp = 'state', -1
        if src is None:
            s = r.choice(self.kids(c, region))
        else:
            s = self.states[src]
        sid = s['id']
        if s['composite']:
            x = r.random()
            inner = self.kids(s['id'], None, True)
            if src is None and x < p['p_exitps']:
                sk, sp, sid = 'exit', s['id'], r.choice(inner)['id']
            elif src is None and x < p['p_exitps'] + p['p_directsrc']:
                sk, sp, sid = 'direct', s['id'], r.choice(inner)['id']
        if dst is not None:
            dk, dp, d = dst
        elif r.random() < p['p_self'] and sk == 'state':
            dk, dp, d = 'state', -1, sid
        else:
            dk, dp, d = self.target(c, region)
        ev = self.event()
        row = dict(sk=sk, sp=sp, s=sid, ev=ev, g=-1, ak='none', a=[], dk=dk, dp=dp, d=d, style='infix', mark='')
        if self.chance_in('p_guard', c):
            row['g'] = self.new_guard()
        if self.chance('p_action'):
            row['ak'] = 'plain'
            row['a'] = self.new_actions()
        return row

    def make_anon(self, c, region):
        row = self.make_row(c, region)
        row['ev'] = ANON
        if self.chance('p_anon_guard') or row['dk'] == 'history' or not self.anon_ok(row):
            if row['g'] < 0:
                row['g'] = self.new_guard()
            if row['ak'] == 'none':
                row['ak'] = 'plain'
                row['a'] = self.new_actions()
        else:
            row['g'] = -1
        return row

    def anon_ok(self, row):
        return anon_rank_ok(self.states, row)

    def run(self):
        r, p = self.r, self.p
        self.n_events = r.randint(*p['events'])
        self.build_tree()
        st = self.states
        comps = [s for s in st if s['composite']]
        if len(comps) > 1:
            for k in ('p_anon', 'p_history', 'p_defer', 'p_internal', 'p_entry', 'p_exit', 'p_guard'):
                if self.chance('p_oneplace'):
                    self.place[k] = r.choice(comps[1:])['id']
        # the initial state of each region is its first leaf; shuffled to be any leaf
        for c in comps:
            for reg in range(c['regions']):
                c['initials'].append(r.choice(self.kids(c['id'], reg, True))['id'])
        for s in st:
            if s['id'] == 0:
                continue
            s['entry'] = self.chance_in('p_entry', s['parent'])
            s['exit'] = self.chance_in('p_exit', s['parent'])
        initial = {i for c in comps for i in c['initials']}
        deps = r.randint(*p['deps'])
        if deps == 0:
            for s in st:
                if not s['composite'] and s['id'] not in initial and self.chance('p_ndc'):
                    s['ndc'] = True
        # one type as child of several composites
        for s in st:
            if s['composite'] or not self.chance('p_alias') or any(x['type'] == s['id'] for x in st if x is not s):
                continue
            taken = {x['type'] for x in st if x['parent'] == s['parent']}
            base = [b for b in st if not b['composite'] and b['type'] == b['id'] and b['parent'] != s['parent']
                    and b['ndc'] == s['ndc'] and b['id'] not in taken]
            if base:
                s.update(type=r.choice(base)['id'], entry=False, exit=False)
        # rows
        for c in comps:
            rows = []
            for reg in range(c['regions']):
                ks = self.kids(c['id'], reg)
                # connect all children
                order = [s['id'] for s in ks if s['id'] != c['initials'][reg]]
                r.shuffle(order)
                seen = [c['initials'][reg]]
                for o in order:
                    t = st[o]
                    dst = ('state', -1, o)
                    if t['composite']:
                        for _ in range(20):
                            cand = self.target(c['id'], reg)
                            if (cand[0] == 'state' and cand[2] == o) or cand[1] == o:
                                dst = cand
                                break
                    rows.append((reg, self.make_row(c['id'], reg, r.choice(seen), dst)))
                    seen.append(o)
                n = int(round(len(ks) * r.uniform(*p['rows']))) - len(order)
                for _ in range(max(1, n)):
                    rows.append((reg, self.make_row(c['id'], reg)))
                # several rows of one source and event
                for _ in range(len(ks)):
                    if self.chance('p_conflict'):
                        reg2, base = r.choice(rows)
                        if reg2 == reg:
                            x = self.make_row(c['id'], reg)
                            x.update(sk=base['sk'], sp=base['sp'], s=base['s'], ev=base['ev'])
                            rows.append((reg, x))
                # rows of composite children
                for k in ks:
                    if k['composite'] and self.chance('p_outer'):
                        x = self.make_row(c['id'], reg, k['id'])
                        evs = [q['ev'] for q in st[k['id']]['rows'] if q['ev'] != ANON]
                        if evs and r.random() < p['p_sub_event']:
                            x['ev'] = r.choice(evs)
                        rows.append((reg, x))
                for _ in ks:
                    if self.chance_in('p_anon', c['id']):
                        rows.append((reg, self.make_anon(c['id'], reg)))
            # region order is the order of the first marked rows
            r.shuffle(rows)
            c['rows'] = [x for _, x in rows]
            for x in c['rows']:
                if x['dk'] == 'state' and st[x['d']]['ndc']:
                    k = r.random()
                    if k < 0.55:
                        x['ak'], x['a'] = 'create', [self.action]
                        self.action += 1
                        if r.random() < 0.7:
                            x['g'] = -1
                    elif k < 0.8:
                        x['ak'], x['a'] = 'reuse', [self.action]
                        self.action += 1
                    else:
                        x['ak'], x['a'] = 'none', []
        # internal tables
        for s in st:
            if self.chance_in('p_internal', s['parent']) and not s['ndc'] and s['type'] == s['id'] and \
                    not any(x['id'] in st[0]['initials'] for x in st if x['type'] == s['id']):
                if s['composite'] and not composite_internal_ok(st, s):
                    continue
                for _ in range(r.randint(1, 3)):
                    row = dict(ev=self.event(), g=-1, a=[], style='infix')
                    if self.chance_in('p_guard', s['parent']):
                        row['g'] = self.new_guard(False)
                    if self.chance('p_iaction') or row['g'] < 0 and row['ev'] in self.bare:
                        row['a'] = self.new_actions()
                    elif row['g'] < 0:
                        self.bare.add(row['ev'])
                    s['internal'].append(row)
        for s in st:
            if not s['composite'] and s['type'] == s['id'] and self.chance_in('p_defer', s['parent']):
                k = r.randint(1, min(3, self.n_events))
                s['defers'] = r.sample(range(self.n_events), k)
        spec = dict(name='m', events=[dict(id=i, payload=self.chance('p_payload')) for i in range(self.n_events)],
                    deps=deps, handler=self.chance('p_handler'), states=st, sets=[])
        for s in st:
            s.pop('regions', None)
        if p['p_log'] > 0:
            for s in st:
                for x in s['rows']:
                    if x['ak'] == 'plain' and self.chance('p_log'):
                        x['a'].insert(r.randint(0, len(x['a'])), LOG)
                        if r.random() < 0.25:
                            x['a'] = [LOG]
                for x in s['internal']:
                    if x['a'] and self.chance('p_log'):
                        x['a'].insert(r.randint(0, len(x['a'])), LOG)
        fix_marks(spec, r)
        spec = normalize(spec)
        if spec is None:
            return None
        if self.chance('p_sets'):
            add_sets(spec, r)
        assign_styles(spec, r, p['p_alt_style'])
        return spec


def leaves_under(states, c):
    out = []
    for s in states:
        if s['parent'] == c:
            out += leaves_under(states, s['id']) if s['composite'] else [s['id']]
    return out


def anon_rank_ok(states, row):
    by = {s['id']: s for s in states}
    if row['dk'] == 'history':
        return False
    s = by[row['s']]
    src = leaves_under(states, s['id']) if s['composite'] else [s['id']]
    d = by[row['d']]
    dst = d['initials'][0] if d['composite'] else d['id']
    return all(x < dst for x in src)


def composite_internal_ok(states, c):
    if any(x['sk'] != 'state' or x['dk'] == 'direct' for x in c['rows']):
        return False
    return not any(s['ndc'] for s in states if s['parent'] == c['id'])


def fix_marks(spec, rng=None):
    """Marks rows so that the regions of each composite start as declared in 'initials'."""
    for c in spec['states']:
        if not c['composite']:
            continue
        # order of regions = order of first marked rows
        for x in c['rows']:
            x['mark'] = ''
        last = -1
        for i in c['initials']:
            own = [k for k, x in enumerate(c['rows']) if x['sk'] == 'state' and x['s'] == i]
            after = [k for k in own if k > last]
            if not own:
                x = dict(sk='state', sp=-1, s=i, ev=0, g=-1, ak='none', a=[], dk='state', dp=-1, d=i,
                         style='infix', mark='star')
                c['rows'].append(x)
                last = len(c['rows']) - 1
                continue
            if not after:
                x = c['rows'].pop(own[0])
                c['rows'].append(x)
                last = len(c['rows']) - 1
            else:
                last = after[0]
                x = c['rows'][last]
            x['mark'] = 'star' if rng is None or rng.random() < 0.6 else 'initial'
        if rng is not None:
            first = {}
            for k, x in enumerate(c['rows']):
                if x['mark']:
                    first[x['s']] = k
            for k, x in enumerate(c['rows']):
                if x['sk'] == 'state' and x['s'] in first and k > first[x['s']] and rng.random() < 0.2:
                    x['mark'] = 'star' if rng.random() < 0.6 else 'initial'


def normalize(spec):
    """Drops what is not mentioned any more, renumbers, and checks the domain. None if ill-formed."""
    spec = copy.deepcopy(spec)
    while True:
        st = {s['id']: s for s in spec['states']}
        mentioned = set()
        for s in spec['states']:
            for x in s['rows']:
                mentioned.add(x['s'])
                if x['sp'] >= 0:
                    mentioned.add(x['sp'])
                if x['d'] >= 0:
                    mentioned.add(x['d'])
                if x['dp'] >= 0:
                    mentioned.add(x['dp'])
        keep = [s for s in spec['states'] if s['id'] == 0 or
                (s['parent'] in st and owned_mention(spec, s) and (not s['composite'] or s['rows']))]
        if len(keep) == len(spec['states']):
            break
        ids = {s['id'] for s in keep}
        for s in keep:
            s['rows'] = [x for x in s['rows'] if x['s'] in ids and (x['sp'] < 0 or x['sp'] in ids)
                         and (x['d'] < 0 or x['d'] in ids) and (x['dp'] < 0 or x['dp'] in ids)]
        for s in keep:
            # what is left takes the type over
            if s['type'] not in ids:
                old, new = s['type'], s['id']
                for x in keep:
                    if x['type'] == old:
                        x['type'] = new
                s.update({k: copy.deepcopy(st[old][k]) for k in ('entry', 'exit', 'defers', 'internal')})
        spec['states'] = keep
        spec['sets'] = [o for o in spec['sets'] if all(q['s'] in ids and q['p'] in ids for q in o)]
    used = sorted({x['ev'] for s in spec['states'] for x in s['rows'] + s['internal'] if x['ev'] != ANON})
    for s in spec['states']:
        s['defers'] = [e for e in s['defers'] if e in used]
    if not used:
        return None
    # renumber states, events, guards, actions densely (order kept)
    sm = {s['id']: k for k, s in enumerate(spec['states'])}
    em = {e: k for k, e in enumerate(used)}
    em[ANON] = ANON
    gm, am = {-1: -1}, {}
    for s in spec['states']:
        for x in s['rows'] + s['internal']:
            if x['g'] not in gm:
                gm[x['g']] = len(gm) - 1
            x['g'] = gm[x['g']]
            x['a'] = [a if a == LOG else am.setdefault(a, len(am)) for a in x['a']]
            x['ev'] = em[x['ev']]
    if spec.get('shape'):
        maps = dict(S=sm, Entry=sm, Exit=sm, E=em, Grd=gm, Act=am, Fac=am, Reu=am)
        shape = {}
        for k, v in spec['shape'].items():
            m = re.match(r'([A-Za-z]+)(\d+)$', k)
            if m is None:
                shape[k] = v
            elif int(m.group(2)) in maps[m.group(1)]:
                shape['%s%d' % (m.group(1), maps[m.group(1)][int(m.group(2))])] = v
        spec['shape'] = shape
    for s in spec['states']:
        s['id'] = sm[s['id']]
        s['type'] = sm[s['type']]
        s['parent'] = sm.get(s['parent'], -1)
        s['defers'] = [em[e] for e in s['defers']]
        if any(i not in sm for i in s['initials']):
            return None
        s['initials'] = [sm[i] for i in s['initials']]
        for x in s['rows']:
            x['s'] = sm[x['s']]
            x['sp'] = sm.get(x['sp'], -1)
            x['d'] = sm.get(x['d'], -1)
            x['dp'] = sm.get(x['dp'], -1)
    for o in spec['sets']:
        for q in o:
            q['s'], q['p'] = sm[q['s']], sm[q['p']]
    spec['events'] = [dict(id=em[e['id']], payload=e['payload']) for e in spec['events'] if e['id'] in em]
    spec['events'].sort(key=lambda e: e['id'])
    if check(spec):
        return None
    return spec


def owned_mention(spec, s):
    """the table of its parent makes s a child of the parent"""
    par = [p for p in spec['states'] if p['id'] == s['parent']]
    if not par:
        return False
    for x in par[0]['rows']:
        if x['sk'] == 'state' and x['s'] == s['id']:
            return True
        if x['sk'] != 'state' and x['sp'] == s['id']:
            return True
        if x['dk'] == 'state' and x['d'] == s['id']:
            return True
        if x['dk'] != 'state' and x['dp'] == s['id']:
            return True
    return False


def check(spec):
    """Domain of the model. Returns an error or None."""
    st = spec['states']
    root = st[0]
    n_anc_multi = {}
    guards = [x['g'] for s in st for x in s['rows'] + s['internal'] if x['g'] >= 0]
    if len(set(guards)) > 64:
        return 'too many guards'
    initial = {i for c in st if c['composite'] for i in c['initials']}
    for s in st:
        if s['parent'] >= s['id']:
            return 'order'
        if s['id'] and not st[s['parent']]['composite']:
            return 'parent'
        n_anc_multi[s['id']] = 0 if s['id'] == 0 else \
            n_anc_multi[s['parent']] + (len(st[s['parent']]['initials']) > 1)
        if s['composite']:
            if not s['rows'] or not s['initials']:
                return 'empty composite'
            if len(s['initials']) > 1 and n_anc_multi[s['id']]:
                return 'nested regions'
            for i in s['initials']:
                if st[i]['parent'] != s['id'] or st[i]['composite'] or st[i]['ndc']:
                    return 'initial'
            if [st[i]['region'] for i in s['initials']] != list(range(len(s['initials']))):
                return 'regions'
            firsts = []
            for x in s['rows']:
                if x['mark'] and x['s'] not in firsts:
                    firsts.append(x['s'])
            if firsts != s['initials']:
                return 'marks'
            if s['ndc'] or s['defers']:
                return 'composite'
            if s['internal'] and not composite_internal_ok(st, s):
                return 'internal of composite'
        else:
            if s['rows'] or s['initials']:
                return 'leaf'
            if s['internal'] and (s['ndc'] or s['id'] in st[0]['initials']):
                return 'internal of leaf'
            if s['ndc'] and (spec['deps'] or s['id'] in initial):
                return 'ndc'
        for x in s['internal']:
            if x['ev'] == ANON:
                return 'anonymous internal'
        if s['type'] != s['id']:
            b = st[s['type']]
            if s['composite'] or b['composite'] or b['type'] != b['id'] or b['ndc'] != s['ndc']:
                return 'type'
            if s['entry'] or s['exit'] or s['defers'] or s['internal']:
                return 'type'
            if b['internal'] and s['id'] in st[0]['initials']:
                return 'internal of leaf'
        if any(x['type'] == s['type'] and x['parent'] == s['parent'] for x in st if x is not s):
            return 'type'
    bare = [x['ev'] for s in st for x in s['internal'] if x['g'] < 0 and not x['a']]
    if len(bare) != len(set(bare)):
        return 'equal internal rows'
    internal_guards = [x['g'] for s in st for x in s['internal'] if x['g'] >= 0]
    if len(internal_guards) != len(set(internal_guards)) or \
            set(internal_guards) & {x['g'] for s in st for x in s['rows']}:
        return 'shared internal guard'
    for c in st:
        for x in c['rows']:
            if x['mark'] and x['sk'] != 'state':
                return 'mark'
            if x['mark'] and x['s'] not in c['initials']:
                return 'mark'
            if x['sk'] == 'state':
                if st[x['s']]['parent'] != c['id']:
                    return 'row source'
                reg = st[x['s']]['region']
            else:
                if st[x['sp']]['parent'] != c['id'] or st[x['s']]['parent'] != x['sp'] or st[x['s']]['composite']:
                    return 'row source'
                reg = st[x['sp']]['region']
                if any(y['sk'] == 'state' and y['s'] == x['s'] and y['ev'] == x['ev'] for y in st[x['sp']]['rows']):
                    return 'ambiguous pseudo source'
            if x['dk'] == 'state':
                if st[x['d']]['parent'] != c['id'] or st[x['d']]['region'] != reg:
                    return 'row target'
            else:
                p = st[x['dp']]
                if not p['composite'] or p['parent'] != c['id'] or p['region'] != reg:
                    return 'row target'
                if x['dk'] != 'history':
                    d = st[x['d']]
                    if d['parent'] != p['id'] or d['composite'] or d['ndc']:
                        return 'row target'
                    if len(p['initials']) > 1 and d['region'] != 0:
                        return 'row target region'
            tgt_ndc = x['dk'] == 'state' and st[x['d']]['ndc']
            if tgt_ndc != (x['ak'] in ('create', 'reuse')) and not (tgt_ndc and x['ak'] == 'none'):
                return 'custom target'
            if (x['ak'] == 'none') != (not x['a']):
                return 'action'
            if x['ev'] == ANON:
                if x['g'] < 0 and not anon_rank_ok(st, x):
                    return 'completion cycle'
                if x['g'] >= 0 and x['ak'] == 'none':
                    return 'completion without action'
            elif x['ev'] < 0 or x['ev'] >= len(spec['events']):
                return 'event'
    return None


def add_sets(spec, r):
    st = spec['states']
    out = []
    for c in st:
        if not c['composite']:
            continue
        per = [[s['id'] for s in st if s['parent'] == c['id'] and s['region'] == g and not s['composite']]
               for g in range(len(c['initials']))]
        for _ in range(3):
            if len(per) > 1 and c['id'] != 0:
                out.append([dict(r=g, p=c['id'], s=r.choice(per[g])) for g in range(len(per))])
            elif c['id'] == 0:
                regs = [g for g in range(len(per)) if len(per) == 1 or r.random() < 0.6] or [0]
                out.append([dict(r=g, p=0, s=r.choice(per[g])) for g in regs])
            else:
                # the ancestor with several regions, if any; all of its regions are set
                reg, multi, a = 0, None, c
                while a['id'] != 0:
                    if len(st[a['parent']]['initials']) > 1:
                        reg, multi = a['region'], a['parent']
                    a = st[a['parent']]
                q = []
                for g in range(len(st[multi]['initials']) if multi else 0):
                    if g != reg:
                        q.append(dict(r=g, p=multi, s=r.choice([s['id'] for s in st if s['parent'] == multi
                                                                and s['region'] == g and not s['composite']])))
                q.append(dict(r=reg, p=c['id'], s=r.choice(per[0])))
                out.append(q)
    uniq = []
    for o in out:
        if o not in uniq:
            uniq.append(o)
    spec['sets'] = uniq


def styles_of(row):
    out = ['infix', 'tuple']
    if row['ev'] != ANON:
        out.append('prefix')
    elif row['g'] < 0 and row['ak'] == 'none' and not row['mark'] and row['sk'] == 'state':
        out.append('prefix')
    return out


def assign_styles(spec, r, p_alt):
    for s in spec['states']:
        for x in s['rows']:
            x['style'] = r.choice(styles_of(x)) if r.random() < p_alt else 'infix'
        for x in s['internal']:
            x['style'] = r.choice(['infix', 'tuple']) if r.random() < p_alt else 'infix'


def generate(rng, profile, tries=200):
    require = profile.get('require')
    for _ in range(tries):
        spec = Gen(rng, {k: v for k, v in profile.items() if k != 'require'}).run()
        if spec is None or check(spec):
            continue
        if require and not require(spec):
            continue
        spec['valued'] = rng.randint(1, 3) if rng.random() < profile.get('p_valued', 0.25) else 0
        # states (1), events (2) that can neither be copied nor moved
        spec['pinned'] = rng.randint(1, 3) if rng.random() < profile.get('p_pinned', 0.0) else 0
        return spec
    raise RuntimeError('profile yields no machine: %r' % (profile,))


# ---- C++ text -----------------------------------------------------------------------------------

def src_text(x):
    if x['sk'] == 'exit':
        return 'hsm::exit<S%d, S%d>' % (x['sp'], x['s'])
    if x['sk'] == 'direct':
        return 'hsm::direct<S%d, S%d>' % (x['sp'], x['s'])
    if x['mark'] == 'star':
        return '* hsm::state<S%d>' % x['s']
    if x['mark'] == 'initial':
        return 'hsm::initial<S%d>' % x['s']
    return 'hsm::state<S%d>' % x['s']


def dst_text(x):
    if x['dk'] == 'state':
        return 'hsm::state<S%d>' % x['d']
    if x['dk'] == 'history':
        return 'hsm::history<S%d>' % x['dp']
    return 'hsm::%s<S%d, S%d>' % (x['dk'], x['dp'], x['d'])


def one_action(a):
    return 'hsm::log' if a == LOG else 'vh::Act<%d> {}' % a


def act_text(x):
    a = x['a']
    if x.get('ak', 'plain') == 'create':
        return 'hsm::create_state(vh::Fac<%d, S%d> {})' % (a[0], x['d'])
    if x.get('ak', 'plain') == 'reuse':
        return 'hsm::reuse_state(vh::Reu<%d> {})' % a[0]
    if not a:
        return None
    if len(a) == 1:
        return one_action(a[0])
    name = 'hsm::chain' if x['style'] == 'tuple' else 'hsm::chain_actions'
    return '%s(%s)' % (name, ', '.join(one_action(k) for k in a))


def row_text(x):
    s, d = src_text(x), dst_text(x)
    g = 'vh::Grd<%d> {}' % x['g'] if x['g'] >= 0 else None
    a = act_text(x)
    anon = x['ev'] == ANON
    if x['style'] == 'tuple':
        return 'hsm::transition(%s, %s, %s, %s, %s)' % (
            s, 'hsm::none {}' if anon else 'hsm::event<E%d>' % x['ev'], g or 'hsm::noGuard {}', a or 'hsm::noAction {}', d)
    if anon:
        left = s
        if g:
            left = ('(%s)' % s if s.startswith('*') else s) + ' [%s]' % g
        if a:
            left += ' / %s' % a
        if not g and not a and s.startswith('*'):
            left = '(%s)' % s
    else:
        left = s + ' + hsm::event<E%d>' % x['ev']
        if g:
            left += ' [%s]' % g
        if a:
            left += ' / %s' % a
    if x['style'] == 'prefix':
        return '%s <= %s' % (d, left)
    return '%s = %s' % (left, d)


def irow_text(x):
    g = 'vh::Grd<%d> {}' % x['g'] if x['g'] >= 0 else None
    a = act_text(x)
    if x['style'] == 'tuple':
        return 'hsm::internal_transition(hsm::event_t<E%d> {}, %s, %s)' % (
            x['ev'], g or 'hsm::noGuard {}', a or 'hsm::noAction {}')
    t = 'hsm::event<E%d>' % x['ev']
    if g:
        t += ' [%s]' % g
    if a:
        t += ' / %s' % a
    return '+ (%s)' % t


def valued(text, spec, form):
    """Gives a third of the callbacks a value (see mach.h)."""
    if not spec.get('valued'):
        return text

    def sub(m):
        name, k, target = m.group(1), int(m.group(2)), m.group(3)
        if (k + spec['valued']) % 3 == 0:
            return m.group(0)
        if form == 'V':
            return 'vh::%sV<%d%s> { { %d } }' % (name, k, ', ' + target if target else '', k)
        return 'vh::%sX%s { %d }' % (name, '<%s>' % target if target else '', k)
    return re.sub(r'vh::(Grd|Act|Entry|Exit|Reu|Fac)<(\d+)(?:, (S\d+))?> \{\}', sub, text)


# Shapes of user types: nothing of this may matter
STATE_SHAPES = ['final', 'align', 'virtual', 'hostile', 'big', 'nested', 'explicit', 'alien']
EVENT_SHAPES = ['final', 'align', 'virtual', 'hostile', 'big', 'nested', 'constant']
CALL_SHAPES = dict(Grd=['lambda', 'Int', 'Like', 'Final', 'Align', 'fn'], Act=['lambda', 'Ret', 'ReturnsHostile', 'Final', 'Align', 'fn'],
                   Entry=['lambda', 'Ret', 'ReturnsHostile', 'Final', 'Align'], Exit=['lambda', 'Ret', 'ReturnsHostile', 'Final', 'Align'],
                   Fac=['lambda', 'Final', 'Align'], Reu=['lambda', 'Final', 'Align'])


def add_shapes(spec, rng, p=0.75):
    """Chooses a shape for most of the types of a machine."""
    out = {}
    for s in spec['states']:
        if rng.random() < p:
            out['S%d' % s['id']] = rng.choice(STATE_SHAPES)
        for k in ('Entry', 'Exit'):
            if s[k.lower()] and rng.random() < p:
                out['%s%d' % (k, s['id'])] = rng.choice(CALL_SHAPES[k])
        for x in s['rows'] + s['internal']:
            if x['g'] >= 0 and rng.random() < p:
                out['Grd%d' % x['g']] = rng.choice(CALL_SHAPES['Grd'])
            kind = dict(create='Fac', reuse='Reu').get(x.get('ak'), 'Act')
            for a in x['a']:
                if a >= 0 and rng.random() < p:
                    out['%s%d' % (kind, a)] = rng.choice(CALL_SHAPES[kind])
    for e in spec['events']:
        if rng.random() < p:
            out['E%d' % e['id']] = rng.choice(EVENT_SHAPES)
    if spec['handler'] and rng.random() < p:
        out['Unexp'] = 'lambda'
    return out


def shaped_calls(text, spec, row=None, source=None):
    """The callbacks of a row in the shapes chosen for them. source: composite the row belongs to."""
    shape = spec.get('shape')
    if not shape:
        return text
    st = spec['states']
    exact = None
    if row and 'sk' in row and row['sk'] == 'state' and row['dk'] == 'state' and row['ev'] != ANON and row['ak'] == 'plain' \
            and not st[row['s']]['composite'] and not st[row['d']]['composite']:
        exact = ', '.join(['E%d' % row['ev'], 'S%d' % row['s'], 'S%d' % row['d']] + ['vh::DepT<%d>' % i for i in range(spec['deps'])])
    params = 'auto& e, auto& s, auto& t, auto&... d'

    def sub(m):
        name, k, target = m.group(1), int(m.group(2)), m.group(3)
        form = shape.get('%s%d' % (name, k))
        full = 'vh::%s<%d%s> {}' % (name, k, ', ' + target if target else '')
        if not form:
            return full
        if form == 'lambda':
            if name == 'Grd':
                return '([](%s) -> bool { return %s(e, s, t, d...); })' % (params, full)
            if name == 'Fac':
                return '[](const auto& e, const auto& s) { return %s(e, s); }' % full
            if name == 'Reu':
                return '[](const auto& e, const auto& s, auto& t) { %s(e, s, t); }' % full
            return '[](%s) { %s(e, s, t, d...); }' % (params, full)
        if form == 'fn':
            return '&vh::call%s<%d, %s>' % (name, k, exact) if exact else full
        return 'vh::%s<vh::%s<%d%s>> {}' % (form, name, k, ', ' + target if target else '')
    return re.sub(r'vh::(Grd|Act|Entry|Exit|Reu|Fac)<(\d+)(?:, (S\d+))?> \{\}', sub, text)


def declare(name, shape, base, body, ctor=''):
    """Definition of a state or event type. ctor: name of the base class whose constructors are inherited."""
    extra = ['using %s::%s;' % (base.split(',')[0], ctor)] if ctor else []
    kw, fin = 'struct ', ''
    bases = base
    if shape == 'final':
        fin = ' final'
    elif shape == 'align':
        kw = 'struct alignas(64) '
    elif shape == 'virtual':
        bases += ', vh::Virtual'
    elif shape == 'hostile':
        bases += ', vh::Hostile'
    elif shape == 'big':
        extra.append('unsigned char filler[3000] {};')
    elif shape == 'explicit' and not ctor:
        extra.append('explicit %s() { }' % name)
    elif shape == 'alien':
        # members whose names the library might look for, of another kind
        extra += ['int type = 0, parent = 0, state = 0, event = 0, source = 0, target = 0;', 'void action() const { }',
                  'void guard() const { }', 'void internal() const { }']
    elif shape == 'constant':
        extra.append('const int constant = 5;')
    text = ''.join('    %s\n' % x for x in extra + body)
    if shape == 'nested':
        return 'namespace nested_%s { namespace inner { template <class, int> struct T : %s {\n%s}; } }\nusing %s = nested_%s::inner::T<int, 3>;' % (
            name, bases, text, name, name)
    return '%s%s%s : %s {\n%s};' % (kw, name, fin, bases, text)


def observations(spec):
    """List of (kind, region, parent, state)."""
    st = spec['states']
    comps = [s['id'] for s in st if s['composite']]
    leaves = [s['id'] for s in st if not s['composite']]
    nreg = max(len(s['initials']) for s in st if s['composite'])
    out = []
    for x in leaves:
        out.append(('O_IS1', 0, 0, x))
    for x in comps:
        # a composite state is not the current state, one of its children is
        out.append(('O_IS1', 0, 0, x))
        if x:
            out.append(('O_IS2', 0, st[x]['parent'], x))
    for x in leaves:
        out.append(('O_IS2', 0, st[x]['parent'], x))
        wrong = [c for c in comps if c != st[x]['parent']]
        if wrong:
            out.append(('O_IS2', 0, wrong[x % len(wrong)], x))
    if len(st) <= 60:
        for g in range(nreg):
            for x in leaves:
                out.append(('O_IS3', g, st[x]['parent'], x))
    for c in comps:
        out.append(('O_PARENT', 0, c, 0))
    return out


def typed(spec):
    """the machine as it is written: types in place of states"""
    spec = copy.deepcopy(spec)
    st = spec['states']
    for s in st:
        for x in s['rows']:
            x['s'] = st[x['s']]['type']
            if x['d'] >= 0:
                x['d'] = st[x['d']]['type']
    for q in spec['sets']:
        for k in q:
            k['s'] = st[k['s']]['type']
    return spec


def emit_types(spec):
    st = [s for s in spec['states'] if s['type'] == s['id']]
    o = []
    pinned = spec.get('pinned', 0)
    if any(s['defers'] for s in spec['states']):
        pinned &= 1  # a deferred event has to be stored
    if any(s['ndc'] for s in spec['states']):
        pinned = 0  # factories take event and source by value
    shape = spec.get('shape') or {}
    for e in spec['events']:
        i = e['id']
        pin = ', vh::Pinned' if pinned & 2 else ''
        base = 'vh::%s<%d>' % ('EvPayload' if e['payload'] else 'EvEmpty', i)
        o.append(declare('E%d' % i, shape.get('E%d' % i), base + pin, [], 'EvPayload' if e['payload'] else ''))

    def text(t, form, row=None):
        return shaped_calls(t, spec, row) if shape else valued(t, spec, form)
    for s in sorted(st, key=lambda s: (s['composite'], -s['id'])):
        b = []
        base = 'vh::%s<%d>' % ('StNdc' if s['ndc'] else 'St', s['id'])
        if s['entry']:
            b.append('static constexpr auto on_entry() { return %s; }' % text('vh::Entry<%d> {}' % s['id'], 'X'))
        if s['exit']:
            b.append('static constexpr auto on_exit() { return %s; }' % text('vh::Exit<%d> {}' % s['id'], 'X'))
        if s['defers']:
            b.append('static constexpr auto defer_events() { return hsm::events<%s>; }' % ', '.join('E%d' % e for e in s['defers']))
        if s['rows']:
            b.append('static constexpr auto make_transition_table()\n    {\n        return hsm::transition_table(\n            %s);\n    }'
                     % ',\n            '.join(text(row_text(x), 'X', x) for x in s['rows']))
        if s['internal']:
            b.append('static constexpr auto make_internal_transition_table()\n    {\n        return hsm::transition_table(\n            %s);\n    }'
                     % ',\n            '.join(text(irow_text(x), 'V', x) for x in s['internal']))
        if s['id'] == 0 and spec['handler']:
            b.append('static constexpr auto on_unexpected_event() { return %s; }' % (
                '[](auto& e, auto& s, auto&... d) { vh::Unexp {}(e, s, d...); }' if shape.get('Unexp') else 'vh::Unexp {}'))
        o.append(declare('S%d' % s['id'], shape.get('S%d' % s['id']), base + (', vh::Pinned' if pinned & 1 else ''), b,
                         'StNdc' if s['ndc'] else ''))
    return '\n'.join(o)


def cstr(s):
    return json.dumps(s)


def ilist(v):
    return '{ %s }' % ', '.join(str(x) for x in v) if v else '{}'


def emit_spec(spec, obs):
    sk = dict(state='S_STATE', exit='S_EXIT', direct='S_DIRECT')
    dk = dict(state='D_STATE', entry='D_ENTRY', direct='D_DIRECT', history='D_HISTORY')
    ak = dict(none='A_NONE', plain='A_PLAIN', create='A_CREATE', reuse='A_REUSE')
    o = ['vh::Spec makeSpec()', '{', '    using namespace vh;', '    Spec s;', '    s.name = %s;' % cstr(spec['name'])]
    for s in spec['states']:
        rows = ', '.join('Row { %s, %d, %d, %d, %d, %s, %s, %s, %d, %d }' % (
            sk[x['sk']], x['sp'], x['s'], x['ev'], x['g'], ak[x['ak']], ilist(x['a']), dk[x['dk']], x['dp'], x['d'])
            for x in s['rows'])
        irows = ', '.join('IRow { %d, %d, %s }' % (x['ev'], x['g'], ilist(x['a'])) for x in s['internal'])
        o.append('    s.states.push_back(StateSpec { %d, %d, %d, %s, %s, %s, %s, %s, { %s }, { %s }, %s });' % (
            s['id'], s['type'], s['parent'], *('true' if s[k] else 'false' for k in ('composite', 'entry', 'exit', 'ndc')),
            ilist(s['defers']), irows, rows, ilist(s['initials'])))
    o.append('    s.nEvents = %d;\n    s.nDeps = %d;\n    s.handler = %s;' % (
        len(spec['events']), spec['deps'], 'true' if spec['handler'] else 'false'))
    o.append('    s.hasPayload = %s;' % ilist([int(e['payload']) for e in spec['events']]))
    o.append('    s.obs = { %s };' % ', '.join('Obs { %s, %d, %d, %d }' % x for x in obs))
    for q in spec['sets']:
        o.append('    s.sets.push_back({ %s });' % ', '.join('SetOp { %d, %d, %d }' % (k['r'], k['p'], k['s']) for k in q))
    o += ['    return s;', '}']
    return '\n'.join(o)


def emit_cpp(spec, header='hsm/hsm.h', prelude=True, obs=None):
    obs = obs or observations(spec)
    deps = ', '.join('d.d%d' % i for i in range(spec['deps']))
    sm = 'hsm::sm<S0%s>' % ''.join(', vh::DepT<%d>' % i for i in range(spec['deps']))
    o = []
    if prelude:
        o.append('#include "%s"\n#include "mach.h"\n' % header)
    o.append('namespace {')
    plain, spec = spec, typed(spec)
    o.append(emit_types(spec))
    o.append('struct Traits {\n    using SM = %s;' % sm)
    o.append('    static SM* construct(void* mem, vh::DepSet& d)\n    {\n        (void)d;\n        return new (mem) SM%s;\n    }'
             % ('(%s)' % deps if deps else ''))
    o.append('    static bool process(SM& sm, int ev, std::uint32_t& p, bool t)\n    {\n        switch (ev) {')
    for e in spec['events']:
        o.append('        case %d: return vh::deliver<SM, E%d>(sm, p, t);' % (e['id'], e['id']))
    o.append('        }\n        return false;\n    }')
    o.append('    static void observe(SM& sm, std::vector<std::uint8_t>& out)\n    {')
    for k, r, p, s in obs:
        s = spec['states'][s]['type']
        o.append('        out.push_back(%s);' % {
            'O_IS1': 'sm.is(hsm::state<S%d>)' % s,
            'O_IS2': 'sm.is(hsm::state<S%d>, hsm::state<S%d>)' % (p, s),
            'O_IS3': 'sm.is(%d, hsm::state<S%d>, hsm::state<S%d>)' % (r, p, s),
            'O_PARENT': 'sm.parent_is(hsm::state<S%d>)' % p}[k])
    o.append('    }\n    static void set(SM& sm, int index)\n    {\n        (void)sm;\n        switch (index) {')
    for i, q in enumerate(spec['sets']):
        calls = []
        for k in q:
            if k['r'] == 0 and k['p'] == 0 and i % 3 == 0:
                calls.append('sm.set(hsm::state<S%d>);' % k['s'])
            elif k['r'] == 0 and i % 3 == 1:
                calls.append('sm.set(hsm::state<S%d>, hsm::state<S%d>);' % (k['p'], k['s']))
            else:
                calls.append('sm.set(%d, hsm::state<S%d>, hsm::state<S%d>);' % (k['r'], k['p'], k['s']))
        o.append('        case %d: %s break;' % (i, ' '.join(calls)))
    o.append('        }\n    }')
    o.append('    static void setDeps(SM& sm, vh::DepSet& d)\n    {\n        (void)d;\n        sm.set_dependency(%s);\n    }\n};' % deps)
    o.append(emit_spec(plain, obs))
    o.append('}\nnamespace vh {\nconst MachineDef& machineDef()\n{\n    static const MachineDef def { makeSpec(),\n'
             '        [](DepSet& d, int pattern) -> std::unique_ptr<IMachine> {\n'
             '            return std::make_unique<Impl<Traits>>(d, pattern);\n        } };\n    return def;\n}\n}')
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import random
    import sys
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    print(emit_cpp(generate(rng, {})))
