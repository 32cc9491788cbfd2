"""Programs with exactly one ill-formed element, made from a well-formed machine."""
import copy

import gen


def program(spec, extra='', use='', sm='SM'):
    deps = ', '.join('vh::DepT<%d>& d%d' % (i, i) for i in range(spec['deps']))
    args = ', '.join('d%d' % i for i in range(spec['deps']))
    types = ''.join(', vh::DepT<%d>' % i for i in range(spec['deps']))
    ev = spec['events'][0]
    made = 'E0 e0 { 1u };' if ev['payload'] else 'E0 e0 {};'
    return ('namespace {\nstruct Foreign { static constexpr int sid = 900; std::uint32_t val {}; vh::StateTracker tracker; };\n'
            'struct ForeignEvent { static constexpr int eid = 900; };\n%s\n%s\nusing SM = hsm::sm<S0%s>;\n}\n'
            'bool entry(%s)\n{\n    %s sm%s;\n    %s\n    bool r = sm.process_event(e0);\n    %s\n    return r;\n}\n' % (
                gen.emit_types(gen.typed(spec)), extra, types, deps, sm, ' { %s }' % args if args and sm == 'SM' else ' {}' if sm == 'SM' else '',
                made, use))


def leaf(spec, parent=0):
    return [s['type'] for s in spec['states'] if s['parent'] == parent and not s['composite']][0]


def control(spec):
    k = leaf(spec)
    return program(spec, use='r = r && sm.is(hsm::state<S%d>); sm.set(hsm::state<S%d>); sm.set(0, hsm::state<S0>, hsm::state<S%d>);' % (k, k, k))


def ill_formed(spec, rng):
    """(label, text)"""
    st = spec['states']
    out = []
    k = leaf(spec)
    out.append(('process_event() with an event no table mentions', program(spec, use='r = sm.process_event(ForeignEvent {});')))
    out.append(('set() to a state no table mentions', program(spec, use='sm.set(hsm::state<Foreign>);')))
    out.append(('set() to a state of another machine in a region',
                program(spec, use='sm.set(0, hsm::state<S0>, hsm::state<Foreign>);')))
    out.append(('set() below a state without transition table',
                program(spec, use='sm.set(hsm::state<S%d>, hsm::state<S%d>);' % (k, k))))
    out.append(('set() below a state no table mentions',
                program(spec, use='sm.set(hsm::state<Foreign>, hsm::state<S%d>);' % k)))
    out.append(('machine over a state without transition table',
                program(dict(spec, deps=0), extra='using Bare = hsm::sm<Foreign>;', sm='Bare')))

    def edited(label, fn):
        s = copy.deepcopy(spec)
        if fn(s) is not False:
            out.append((label, program(s)))

    def no_initial(s):
        for x in s['states'][0]['rows']:
            x['mark'] = ''
    if len(st[0]['initials']) >= 1 and not any(q['composite'] for q in st[1:]):
        edited('no initial state at all', no_initial)

    comps = [q['id'] for q in st[1:] if q['composite'] and q['parent'] == 0]

    def composite_initial(s):
        c = rng.choice(comps)
        rows = s['states'][0]['rows']
        rows.insert(rng.randint(0, len(rows)), dict(sk='state', sp=-1, s=c, ev=0, g=-1, ak='none', a=[], dk='state', dp=-1, d=c,
                                                    style='infix', mark=rng.choice(['star', 'initial'])))
    if comps:
        edited('a composite state as initial state', composite_initial)
    def internal_initial(region):
        def edit(s):
            i = s['states'][s['states'][0]['initials'][region]]['type']
            s['states'][i]['internal'] = [dict(ev=0, g=-1, a=[990], style='infix')]
        return edit
    for region in range(len(st[0]['initials'])):
        edited('an initial state with internal transition table (region %d)' % region, internal_initial(region))

    text = program(dict(spec, deps=0), extra='struct Empty { static constexpr int sid = 901; std::uint32_t val {}; vh::StateTracker tracker;\n'
                   '    static constexpr auto make_transition_table() { return hsm::transition_table(); } };\nusing Bare = hsm::sm<Empty>;',
                   sm='Bare')
    out.append(('machine with an empty transition table', text))
    return out
