"""What each check generates and looks at. See DESIGN.md."""


def has(*keys):
    """spec predicate: at least one of the given ingredients"""
    def pred(spec):
        return any(FEATURES[k](spec) for k in keys)
    return pred


def all_of(*keys):
    def pred(spec):
        return all(FEATURES[k](spec) for k in keys)
    return pred


def _rows(spec):
    for s in spec['states']:
        for x in s['rows']:
            yield x


FEATURES = {
    'composite': lambda s: sum(x['composite'] for x in s['states']) > 1,
    'deep': lambda s: any(x['composite'] and x['parent'] > 0 for x in s['states']),
    'history': lambda s: any(x['dk'] == 'history' for x in _rows(s)),
    'sub_history': lambda s: any(x['dk'] == 'history' for x in _rows(s)) and all(x['dk'] != 'history' for x in s['states'][0]['rows']),
    'entryps': lambda s: any(x['dk'] == 'entry' for x in _rows(s)),
    'direct': lambda s: any(x['dk'] == 'direct' for x in _rows(s)),
    'exitps': lambda s: any(x['sk'] == 'exit' for x in _rows(s)),
    'directsrc': lambda s: any(x['sk'] == 'direct' for x in _rows(s)),
    'multi': lambda s: any(len(x['initials']) > 1 for x in s['states']),
    'multi_root': lambda s: len(s['states'][0]['initials']) > 1,
    'multi_sub': lambda s: any(len(x['initials']) > 1 for x in s['states'][1:]),
    'anon': lambda s: any(x['ev'] < 0 for x in _rows(s)),
    'internal': lambda s: any(x['internal'] for x in s['states']),
    'internal_comp': lambda s: any(x['internal'] and x['composite'] for x in s['states']),
    'defer': lambda s: any(x['defers'] for x in s['states']),
    'ndc': lambda s: any(x['ndc'] for x in s['states']),
    'create': lambda s: any(x['ak'] == 'create' for x in _rows(s)),
    'reuse': lambda s: any(x['ak'] == 'reuse' for x in _rows(s)),
    'entry': lambda s: any(x['entry'] for x in s['states']),
    'exit': lambda s: any(x['exit'] for x in s['states']),
    'chain': lambda s: any(len(x['a']) > 1 for x in _rows(s)),
    'payload': lambda s: any(e['payload'] for e in s['events']),
    'handler': lambda s: s['handler'],
    'deps': lambda s: s['deps'] > 0,
    'sets': lambda s: bool(s['sets']),
    'combined256': lambda s: sum(x['composite'] for x in s['states']) * len(s['states']) > 256,
}

# Ingredients switched on together
MIX = dict(p_defer=0.2, p_multi_root=0.2, p_multi_sub=0.3, p_anon=0.2, p_internal=0.25, p_handler=0.5, p_ndc=0.15,
           p_history=0.25)
FLAT = dict(p_composite=0.0, root_leaves=(4, 7), rows=(1.8, 2.6), events=(3, 5))
HIER = dict(depth=2, p_composite=1.0, max_composites=2, p_outer=0.6)
DEEP = dict(depth=3, p_composite=1.0, max_composites=3, leaves=(2, 3), root_leaves=(2, 3), rows=(1.0, 1.6))
REGROOT = dict(p_multi_root=1.0, require=has('multi_root'))
REGSUB = dict(p_multi_sub=1.0, p_composite=1.0, max_composites=2, require=has('multi_sub'))


def d(*parts, **kw):
    out = {}
    for p in parts:
        out.update(p)
    out.update(kw)
    return out


class Prop:
    def __init__(self, pid, profiles, nontrivial, flags=(), aspects='all', relevant=(), kind='model', variants=('plain',),
                 quick=20, thorough=320, cases=(1500, 6000), maxlen=(100, 160), level_rule='', alternatives=None, known=()):
        self.id, self.profiles, self.nontrivial, self.flags = pid, profiles, list(nontrivial), list(flags)
        self.aspects, self.relevant, self.kind, self.variants = aspects, list(relevant), kind, list(variants)
        self.quick, self.thorough, self.cases, self.maxlen = quick, thorough, cases, maxlen
        self.rule, self.alternatives, self.known = level_rule, alternatives, list(known)


PROPS = {}


def prop(*a, **kw):
    p = Prop(*a, **kw)
    if p.id in ('C11', 'C20'):
        # the object itself means that none is copied
        for q in p.profiles:
            q.setdefault('p_pinned', 0.5)
    PROPS[p.id] = p


prop('C01', [d(FLAT), d(), d(HIER), d(MIX), d(FLAT, rows=(2.5, 3.5)), d(DEEP),
             d(REGROOT, p_composite=1.0)],
     ['fired'], level_rule='a transition fired')
prop('C02', [d(FLAT, p_guard=0.85, p_conflict=1.0), d(HIER, p_guard=0.85, p_conflict=1.0, rows=(1.5, 2.2)),
             d(MIX, p_guard=0.8, p_conflict=0.9, p_share_guard=0.2),
             d(p_guard=0.8, p_conflict=0.9, p_internal=0.5, p_anon=0.3, p_composite=0.7),
             d(REGROOT, p_guard=0.8, p_conflict=0.8), d(FLAT, p_guard=0.5, p_conflict=1.0, p_share_guard=0.4)],
     ['guard_fallthrough', 'all_guards_failed', 'guard_rejected'], relevant=['guard_rejected', 'guard_fallthrough', 'fired'],
     level_rule='a guard rejected a row, so that another row or none was chosen')
prop('C03', [d(HIER, require=has('entryps', 'exitps', 'direct', 'directsrc')), d(DEEP, require=has('deep')),
             d(HIER, p_exitps=0.6, p_directsrc=0.4, p_entryps=0.3, p_direct=0.3, require=has('exitps')),
             d(HIER, p_outer=1.0, p_sub_event=0.9, max_composites=1),
             d(HIER, p_entryps=0.5, p_direct=0.5, p_history=0.0, require=all_of('entryps', 'direct')),
             d(DEEP, p_exitps=0.5, p_directsrc=0.3, require=has('exitps', 'directsrc')),
             d(HIER, p_multi_sub=0.5, p_defer=0.2, p_anon=0.2, p_internal=0.2)],
     ['composite_entered', 'outer_row_fired', 'exit_pseudo_state', 'direct_source', 'inner_over_outer'],
     relevant=['composite_entered', 'outer_row_fired', 'exit_pseudo_state', 'direct_source', 'direct_target',
               'entry_pseudo_state', 'inner_over_outer'], known=['KF4'],
     level_rule='a composite state was entered or left, or one of its rows competed with a row of its sub machine')
prop('C04', [d(p_entry=0.8, p_exit=0.8, p_chain=0.4), d(HIER, p_entry=0.8, p_exit=0.8, p_chain=0.4),
             d(MIX, p_entry=0.6, p_exit=0.6), d(FLAT, p_entry=0.7, p_exit=0.7, p_self=0.4, deps=(0, 2)),
             d(HIER, p_entry=0.8, p_exit=0.8, p_anon=0.4, p_exitps=0.4), d(REGSUB, p_entry=0.7, p_exit=0.7),
             d(p_entry=0.7, p_exit=0.7, p_ndc=0.5)],
     ['entry_action', 'exit_action', 'chained_actions', 'exit_action_entry_in_one_transition'],
     relevant=['entry_action', 'exit_action', 'chained_actions', 'fired'], known=['KF5'],
     level_rule='an entry or exit action or a chain of actions ran')
prop('C05', [d(FLAT, p_internal=0.8, require=has('internal')), d(HIER, p_internal=0.8, require=has('internal_comp')),
             d(MIX, p_internal=0.7, require=has('internal')), d(DEEP, p_internal=0.7, require=has('internal_comp')),
             d(HIER, p_internal=0.8, p_entry=0.7, p_exit=0.7, p_conflict=0.8, require=has('internal')),
             d(REGROOT, p_internal=0.7), d(REGSUB, p_internal=0.6), d(FLAT, p_internal=0.8, p_defer=0.3, p_anon=0.3)],
     ['internal'], relevant=['internal'], known=['KF2'], level_rule='an internal transition fired')
prop('C06', [d(REGROOT), d(REGSUB), d(REGROOT, p_composite=1.0), d(REGSUB, p_exitps=0.5, p_outer=1.0, depth=2),
             d(REGROOT, p_defer=0.3, p_anon=0.3, p_internal=0.3), d(REGSUB, p_history=0.5, p_anon=0.3),
             d(REGROOT, regions=(3, 4), p_composite=0.0), d(REGSUB, p_internal=0.3, p_defer=0.2, p_directsrc=0.4)],
     ['later_region_fired', 'two_regions_fired', 'regions_entered', 'regions_left'],
     relevant=['later_region_fired', 'two_regions_fired', 'regions_entered', 'regions_left', 'fired'], known=['KF6'],
     level_rule='a region other than the first took part')
prop('C07', [d(FLAT, p_anon=0.7, require=has('anon')), d(HIER, p_anon=0.7, require=has('anon')),
             d(FLAT, p_anon=1.0, p_anon_guard=0.3, require=has('anon')), d(REGROOT, p_anon=1.0, p_composite=0.0),
             d(MIX, p_anon=0.7, require=has('anon')), d(DEEP, p_anon=0.7, require=has('anon')),
             d(HIER, p_anon=0.8, p_entry=0.6, p_exit=0.6, p_exitps=0.4, require=has('anon')),
             d(FLAT, p_anon=0.6, p_defer=0.4, require=all_of('anon', 'defer')), d(REGSUB, p_anon=0.9)],
     ['completion', 'completion_chain'], relevant=['completion'], known=['KF1'], level_rule='a completion transition fired')
prop('C08', [d(FLAT, p_defer=0.6, require=has('defer')), d(HIER, p_defer=0.6, require=has('defer')),
             d(FLAT, p_defer=0.7, p_payload=1.0, events=(3, 5), require=has('defer')),
             d(MIX, p_defer=0.6, require=has('defer')), d(REGROOT, p_defer=0.4), d(REGSUB, p_defer=0.4),
             d(FLAT, p_defer=0.6, p_anon=0.4, require=has('defer')),
             d(HIER, p_defer=0.6, p_internal=0.5, p_handler=1.0, require=has('defer'))],
     ['deferred'], relevant=['deferred', 'replayed'], level_rule='an event was deferred')
prop('C09', [d(HIER, p_history=0.6, require=has('history')), d(DEEP, p_history=0.6, require=has('history')),
             d(REGSUB, p_history=0.7, require=all_of('history', 'multi_sub')),
             d(HIER, p_history=0.6, p_exitps=0.5, require=all_of('history', 'exitps')),
             d(HIER, p_history=0.6, p_anon=0.3, p_defer=0.2, require=has('history')),
             d(REGROOT, p_composite=1.0, p_history=0.6, require=has('history')),
             d(DEEP, p_history=0.8, p_oneplace=0.8, require=has('sub_history')),
             d(HIER, p_history=0.6, leaves=(3, 5), rows=(1.6, 2.4), p_sets=0.5, require=has('history'))],
     ['history_noninitial'], relevant=['history'], flags=['--set'], level_rule='a history target restored a state that is not the initial one')
prop('C10', [d(p_handler=1.0), d(HIER, p_handler=1.0), d(MIX, p_handler=0.8), d(FLAT, p_handler=1.0, p_guard=0.7),
             d(REGROOT, p_handler=1.0), d(FLAT, p_handler=0.5, p_defer=0.3, deps=(0, 2)), d(REGSUB, p_handler=1.0),
             d(HIER, p_handler=1.0, p_internal=0.4, p_anon=0.3, p_payload=1.0)],
     ['unexpected', 'all_guards_failed'], flags=['--bias', '30'], level_rule='an event was rejected')
prop('C11', [d(p_action=0.9, p_entry=0.5, p_exit=0.5), d(HIER, p_action=0.9), d(MIX, p_action=0.9),
             d(FLAT, p_action=0.9, p_self=0.4), d(REGROOT, p_action=0.9), d(REGSUB, p_action=0.9, p_history=0.4),
             d(HIER, p_action=0.9, p_internal=0.5, p_handler=1.0)],
     ['modified_state_data_seen'], relevant=['modified_state_data_seen', 'fired'],
     level_rule='a callback saw state data left behind by an earlier callback')
prop('C12', [d(deps=(1, 3)), d(HIER, deps=(1, 3), p_internal=0.4), d(MIX, p_ndc=0, deps=(1, 3)),
             d(FLAT, deps=(2, 3), p_handler=1.0, p_entry=0.6, p_exit=0.6), d(REGROOT, deps=(1, 2)), d(REGSUB, deps=(1, 3)),
             d(FLAT, deps=(1, 3), p_defer=0.4, p_anon=0.4, p_handler=1.0)],
     ['dependency_seen', 'fired_after_set_dependency'], relevant=['dependency_seen', 'fired_after_set_dependency'],
     flags=['--deps'], level_rule='a callback received dependencies')
prop('C13', [d(FLAT, p_ndc=0.7, require=has('create')), d(HIER, p_ndc=0.6, require=has('create')),
             d(FLAT, p_ndc=0.7, p_entry=0.6, p_exit=0.6, p_self=0.3, require=has('create')),
             d(MIX, p_ndc=0.6, require=has('create')), d(FLAT, p_ndc=0.8, require=all_of('create', 'reuse')),
             d(DEEP, p_ndc=0.6, require=has('ndc')), d(REGROOT, p_ndc=0.6, require=has('create'))],
     ['target_created', 'target_reused', 'custom_target_kept'],
     relevant=['target_created', 'target_reused', 'custom_target_kept'], known=['KF3'],
     level_rule='a target state object was created or reused')
prop('C14', [d(), d(HIER, require=has('exitps', 'directsrc', 'entryps')), d(MIX), d(REGROOT), d(FLAT, p_anon=0.5, p_anon_guard=0.5),
             d(HIER, p_internal=0.8, p_iaction=0.5), d(FLAT, p_guard=0.6, p_action=0.7, p_chain=0.4), d(REGSUB)],
     ['fired'], kind='styles', quick=8, thorough=90, level_rule='a transition fired')
prop('C15', [d(p_sets=1.0), d(HIER, p_sets=1.0), d(REGROOT, p_sets=1.0), d(REGSUB, p_sets=1.0), d(MIX, p_sets=1.0),
             d(DEEP, p_sets=1.0), d(HIER, p_sets=1.0, p_history=0.5, p_defer=0.2, p_anon=0.2)],
     ['fired_after_set'], relevant=['fired_after_set', 'fired'], flags=['--set'], level_rule='an event fired after set()')
prop('C16', [d(MIX, p_ndc=0.3), d(FLAT, p_ndc=0.6, p_entry=0.4, require=has('create')), d(HIER, p_defer=0.4, p_payload=1.0),
             d(REGROOT, p_defer=0.3), d(REGSUB, p_history=0.4), d(HIER, p_handler=1.0, p_internal=0.4, p_history=0.4),
             d(FLAT, deps=(1, 3), p_handler=1.0), d(DEEP, p_history=0.4)],
     ['fired'], flags=['--set', '--deps', '--move', '--throw', '--oom', '--twin'], aspects='mem,exc', variants=['asan'], quick=12,
     thorough=160, cases=(500, 2000), level_rule='a transition fired')
prop('C17', [d(p_entry=0.4, p_exit=0.4), d(HIER, p_entry=0.4, p_exit=0.4), d(MIX), d(REGROOT), d(REGSUB),
             d(FLAT, p_defer=0.5, p_payload=1.0), d(FLAT, p_anon=0.5), d(FLAT, p_ndc=0.5), d(HIER, p_handler=1.0, deps=(0, 2))],
     ['action_threw', 'guard_threw'], relevant=['action_threw', 'guard_threw'], flags=['--throw'],
     level_rule='a callback threw')
prop('C18', [d(), d(HIER), d(MIX), d(FLAT, p_defer=0.5, p_handler=1.0, deps=(1, 2)), d(REGROOT), d(REGSUB, p_history=0.4),
             d(HIER, p_internal=0.6, p_anon=0.4), d(FLAT, p_ndc=0.6, require=has('create')),
             d(REGROOT, p_composite=1.0, p_history=0.7, require=has('history')), d(REGSUB, p_defer=0.4, p_anon=0.4, p_exitps=0.4),
             d(DEEP, p_history=0.4, p_exitps=0.3, p_directsrc=0.3),
             d(FLAT, p_internal=0.9, p_iaction=0.4, p_guard=0.7, p_anon=0.3)],
     ['fired'], kind='variants', variants=['plain', 'single'], quick=14, thorough=150,
     flags=['--set', '--deps'], level_rule='a transition fired')
prop('C19', [d(p_log=0.6, p_chain=0.6), d(HIER, p_log=0.6, p_chain=0.5), d(MIX, p_ndc=0, p_log=0.5, p_chain=0.5),
             d(FLAT, p_log=0.6, p_chain=0.6, p_anon=0.4), d(REGROOT, p_log=0.5), d(REGSUB, p_log=0.5),
             d(HIER, p_log=0.6, p_internal=0.5, deps=(0, 2))],
     ['logged'], flags=['--log', '--status'], level_rule='a transition was logged')
prop('C20', [d(p_payload=1.0, p_action=0.9, p_chain=0.4), d(HIER, p_payload=1.0, p_action=0.9, p_handler=1.0),
             d(MIX, p_payload=1.0, p_action=0.9), d(FLAT, p_payload=1.0, p_defer=0.5, p_handler=1.0),
             d(REGROOT, p_payload=1.0, p_action=0.9), d(FLAT, p_payload=1.0, p_ndc=0.5, require=has('create')),
             d(FLAT, p_payload=1.0, p_internal=0.6, p_entry=0.5, p_exit=0.5)],
     ['payload_seen', 'caller_event_modified', 'payload_of_replayed_event_seen'],
     relevant=['payload_seen', 'caller_event_modified', 'payload_of_replayed_event_seen'],
     level_rule='a callback received an event with payload')
prop('C21', [d(MIX), d(HIER, p_history=0.4), d(FLAT, p_defer=0.4, p_handler=1.0), d(REGROOT), d(REGSUB),
             d(FLAT, p_ndc=0.5, require=has('create')), d(FLAT, deps=(1, 3)), d(HIER, p_internal=0.5, p_anon=0.3)],
     ['fired'], flags=['--set', '--deps', '--threads', '3'], variants=['tsan'], quick=14, thorough=140, cases=(60, 250),
     maxlen=(50, 80), level_rule='a transition fired')
prop('C22', [d(), d(HIER, p_history=0.4), d(MIX), d(FLAT, p_defer=0.5, p_payload=1.0), d(REGROOT), d(REGSUB),
             d(FLAT, p_ndc=0.5, require=has('create')), d(HIER, deps=(1, 3), p_handler=1.0, p_internal=0.4)],
     ['fired_after_move'], relevant=['fired_after_move'], flags=['--move', '--set', '--deps'], variants=['asan'], quick=12,
     thorough=140, cases=(250, 800), level_rule='a transition fired in a moved machine')
prop('C23', [d(REGROOT), d(HIER), d(MIX), d(REGROOT, regions=(3, 4), p_composite=0.5), d(REGSUB), d(FLAT, deps=(0, 2), p_handler=1.0)],
     [], kind='reject', quick=12, thorough=60, level_rule='a program with exactly one ill-formed element')
prop('C24', [d(MIX), d(HIER, p_history=0.4), d(REGSUB, p_defer=0.3), d(FLAT, p_ndc=0.5, p_handler=1.0, deps=(0, 0)),
             d(REGROOT, p_internal=0.4, p_anon=0.3), d(FLAT, p_defer=0.4, deps=(1, 3))],
     ['fired'], kind='variants', variants=['plain', 'gcc-O2-20', 'clang17', 'clang20'],
     quick=6, thorough=60, flags=['--set', '--deps'], level_rule='a transition fired')
prop('C25', [d(FLAT), d(HIER), d(DEEP), d(REGROOT), d(REGSUB), d(FLAT, p_defer=0.4), d(HIER, p_history=0.4, p_internal=0.3),
             d(FLAT, p_anon=0.4)],
     ['fired'], kind='edits', quick=8, thorough=110, flags=['--set'], level_rule='a transition fired')
prop('C26', [dict(depth=2, p_composite=1, max_composites=6, leaves=(4, 5), root_leaves=(9, 12), rows=(0.8, 1.0), events=(2, 3),
                  p_conflict=0.05, p_history=0.3, require=has('combined256')),
             dict(depth=1, p_composite=0, root_leaves=(45, 60), rows=(1.0, 1.1), events=(2, 3), p_conflict=0.0),
             dict(depth=5, p_composite=1.0, max_composites=5, leaves=(2, 2), root_leaves=(2, 2), rows=(1.0, 1.2), events=(2, 3),
                  require=has('deep')),
             dict(FLAT, events=(14, 15), root_leaves=(4, 6), rows=(2.8, 3.4), p_conflict=0.1),
             dict(p_multi_root=1.0, regions=(9, 10), p_composite=0.0, root_leaves=(2, 2), rows=(1.0, 1.2), events=(2, 3),
                  require=has('multi_root'))],
     ['fired'], quick=5, thorough=80, cases=(250, 800), maxlen=(150, 300), level_rule='a transition fired')

prop('C27', [d(FLAT, p_entry=0.5, p_exit=0.5, p_action=0.9, p_guard=0.5, p_chain=0.3), d(HIER, p_entry=0.4, p_exit=0.4), d(MIX),
             d(FLAT, p_ndc=0.5, p_payload=1.0, require=has('create')), d(REGROOT, p_defer=0.3, p_payload=0.7),
             d(REGSUB, p_history=0.4, p_internal=0.3), d(FLAT, p_defer=0.6, p_payload=1.0, deps=(0, 2)),
             d(HIER, p_anon=0.5, p_handler=1.0, p_internal=0.5, p_exitps=0.3)],
     ['fired'], kind='shapes', variants=['plain', 'asan', 'clang17'], quick=10, thorough=110, cases=(600, 3000),
     flags=['--set', '--deps'], level_rule='a transition fired')

prop('C28', [d(MIX), d(FLAT, p_defer=0.5, p_payload=1.0, p_handler=1.0), d(HIER, p_history=0.6, require=has('history')),
             d(FLAT, deps=(1, 3), p_internal=0.5, p_guard=0.7), d(REGSUB, p_history=0.5), d(FLAT, p_ndc=0.6, require=has('create')),
             d(REGROOT, p_defer=0.3, p_composite=0.5, p_history=0.4), d(HIER, p_anon=0.5, p_internal=0.4, deps=(0, 2))],
     ['fired'], aspects='growth', flags=['--set', '--deps', '--move', '--throw', '--grow'], variants=['count'], quick=16, thorough=160,
     cases=(120, 600), maxlen=(40, 60), level_rule='a transition fired')
