"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'include/hsm/details/'
SM = D + 'sm.h'
FILL = D + 'fill_dispatch_table.h'
RES = D + 'resolve_state.h'
FLAT = D + 'flatten_transition_table.h'
FLATI = D + 'flatten_internal_transition_table.h'
DSL = 'include/hsm/front/transition_dsl.h'
TUP = 'include/hsm/front/transition_tuple.h'

CALLS = 'callbacks (guards, actions, entry, exit, on_unexpected_event), process_event result, is()/parent_is()'

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=(CALLS,), level_note=''):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


ALL = 'every well-formed machine of the supported domain and every history of events with arbitrary guard outcomes'

prop('C01', 'Transitions and is() follow the transition table',
     'Whenever an event is processed, the machine takes exactly a transition its table has for the current state and that '
     'event, ends up in the target this transition names, and keeps its state when there is none. is() and parent_is() are '
     'true for the current state and its parent and false for every other state.',
     ['programs', 'histories'], ALL,
     'Each existing test drives one hand-written machine through a few events; the table is compiled into indices and '
     'nested lookup tables whose layout differs for every machine.',
     [SM, FILL, D + 'make_states_map.h', D + 'dispatch_table.h', D + 'switch.h', D + 'index_map.h'],
     [('process_event looks up (parent, state) in the table of the event', SM), ('addDispatchTableEntry', FILL),
      ('state indices', D + 'make_states_map.h')])
prop('C02', 'Guards decide which of several transitions is taken',
     'If several transitions of one machine apply to the current state and event, the one declared last whose guard accepts is '
     'taken, guards being asked in that order; if no guard accepts, the event is not handled. A rejected transition leaves '
     'no trace: no action, entry or exit action of it runs and the state does not change.',
     ['programs', 'inputs', 'histories'], ALL + ', each guard accepting or rejecting independently at each call',
     'The tests contain a handful of competing rows with fixed guard outcomes; order, number of competitors and outcomes '
     'have to be varied together.',
     [SM, FILL, D + 'dispatch_table.h'], [('list of candidate transitions per state and event', D + 'dispatch_table.h'),
                                         ('tryExecuteTransition', SM)])
prop('C03', 'Composite states: entering, leaving and precedence across levels',
     'Entering a composite state enters its initial state(s), an entry or direct target enters the named child instead, and '
     'the sub machine alone then decides over its events. Rows of a composite state (including exit pseudo states and direct '
     'sources) apply while the machine is directly inside it, but rows of the sub machine for the same event take precedence. '
     'All of this holds at every nesting depth.',
     ['programs', 'histories'], ALL + ', nested up to five levels deep',
     'The tests nest at most two levels with few rows and hardly any competing rows between levels.',
     [FLAT, SM, RES, D + 'pseudo_states.h', D + 'collect_parent_states.h'],
     [('flatten_transition_table', FLAT), ('extend transitions of composite states to all of their children', FLAT),
      ('resolveSrc, resolveDst', RES)])
prop('C04', 'Exit action, transition action and entry action run once, in that order',
     'An external transition between plain states runs the exit action of the source, then its own action, then the entry '
     'action of the target, each exactly once and with the source and target state objects and the event of that transition; '
     'entering a composite state runs its own entry action and then that of its (first region\'s) initial state. States '
     'that are not part of the transition do not run entry or exit actions.',
     ['programs', 'histories'], ALL + ', with entry and exit actions on any subset of the states',
     'The tests look at single transitions with one fixed combination of actions.',
     [RES, D + 'has_action.h', D + 'traits.h'], [('resolveEntryExitAction', RES), ('has_action', D + 'has_action.h')])
prop('C05', 'Internal transitions act without leaving the state',
     'An internal transition runs its action but neither exit nor entry actions and never changes the current state of any '
     'region. It takes part in the guard-based selection of C02 and applies to the state that declares it or, declared by a '
     'composite state, to every direct child.',
     ['programs', 'histories'], ALL + ', with internal transitions on any state',
     'The existing tests have one or two internal rows that do not compete with other rows.',
     [FLATI, SM, FILL], [('flatten_internal_transition_table', FLATI), ('internal transitions keep the state', SM)])
prop('C06', 'Orthogonal regions advance independently',
     'In a machine or composite state with several regions, each event is offered to every region, each region takes its own '
     'transition and keeps its own current state, and the event counts as handled if any region handled it. Entering a '
     'composite state with regions enters all of its initial states and leaving it leaves all of them.',
     ['programs', 'histories'], ALL + ', with up to nine regions in the root or in sub machines',
     'The tests have few two-region machines and short histories.',
     [SM, D + 'collect_initial_states.h', FILL], [('loop over regions', SM), ('region of a sub machine', SM)])
prop('C07', 'Completion transitions are taken until the machine rests',
     'After a transition, completion (event-less) transitions whose guard accepts are taken one after the other until the '
     'current state has none that is accepted, before process_event returns. They follow the rules for selection, order of '
     'actions and hierarchy that transitions with events follow.',
     ['programs', 'histories'], ALL + ', with chains and guarded loops of completion transitions',
     'The tests have single steps and short chains; guarded loops and the combination with hierarchy are not reached.',
     [SM, D + 'dispatch_table.h'], [('anonymous transitions', SM)])
prop('C08', 'Deferred events are neither lost nor duplicated nor reordered',
     'An event that the current state defers has no effect when it arrives and is processed, with its data unchanged, '
     'exactly once after the machine has left the deferring state; several deferred events are processed in order of '
     'arrival. An event that a state handles by a transition and defers too is deferred, and an event nobody defers is '
     'never kept.',
     ['histories', 'programs'], ALL + ', with up to 160 events per history',
     'A queue has to be exercised by long histories; the tests defer one or two events.',
     [SM, D + 'variant_queue.h'], [('defer_queue', SM), ('variant_queue', D + 'variant_queue.h')])
prop('C09', 'History targets restore the child that was active last',
     'A transition to the history of a composite state enters, in each of its regions, the child that was current when the '
     'machine last left this composite state, or the initial one if it was never active. The histories of different '
     'composite states do not influence each other.',
     ['histories', 'programs'], ALL + ', with history targets',
     'The tests leave and re-enter one composite state once or twice.',
     [SM, RES], [('history', SM), ('resolveHistory', RES)])
prop('C10', 'process_event reports whether the event was handled',
     'process_event returns true exactly if at least one region took a transition, internal ones included; rejected, deferred '
     'and unexpected events return false. It changes no state and runs no action when it returns false. The on_unexpected_event '
     'handler is called, once, with the event and the object of the first region\'s current state, exactly if no region has a '
     'transition for the event and none defers it.',
     ['programs', 'histories'], ALL + ', with and without handler, with events no state expects',
     'The tests check single events; rejection by guards, by regions and in sub machines are not combined.',
     [SM, D + 'fill_unexpected_event_handler_tables.h', D + 'make_unexpected_event_handler_tables.h'],
     [('unexpected event handler tables', D + 'fill_unexpected_event_handler_tables.h'), ('process_event', SM)])
prop('C11', 'Every state has one object that lives as long as the machine',
     'All callbacks that are handed the same state see the same object for the whole life of the machine, whatever was '
     'entered and left in between: what one callback writes into it the next one reads. Callbacks are handed the objects of '
     'the states of their own transition and of no other state.',
     ['histories', 'programs'], ALL + ', callbacks modifying source and target at each call, states that cannot be copied or moved',
     'The tests read a state member back after one transition.',
     [D + 'make_states_map.h', FILL, SM], [('states map', D + 'make_states_map.h')])
prop('C12', 'Callbacks receive the injected dependencies by reference',
     'Every callback is handed the dependencies the machine was constructed with, in that order and by reference. After '
     'set_dependency() every callback of every later operation is handed the new ones and the old ones are never touched again.',
     ['programs', 'histories'], ALL + ', with one to three dependencies, exchanged at any point of the history',
     'The tests inject one dependency and never look at all kinds of callbacks after an exchange.',
     [SM, FILL], [('set_dependency', SM), ('dispatch table entries keep references', FILL)])
prop('C13', 'create_state and reuse_state decide about the object of the target',
     'A transition with create_state makes the object its factory returned the object of the target state and destroys the '
     'former one exactly once; one with reuse_state keeps the object and hands it to the callback. States without default '
     'constructor otherwise behave like any other state and no callback is handed an object that was destroyed.',
     ['programs', 'histories'], ALL + ', with states without default constructor',
     'The tests create each state once.',
     [D + 'create_state.h', D + 'reuse_state.h', RES, D + 'make_states_map.h'],
     [('create_state', D + 'create_state.h'), ('callEntryActionOfRecreatedState', RES)])
prop('C14', 'All spellings of a transition table mean the same machine',
     'A transition written with the infix, the prefix or the tuple front end, with either way to mark an initial state and '
     'either name of a combinator, behaves the same, so that the same table written in any mix of spellings reacts to every '
     'history in the same way.',
     ['programs', 'histories'], 'every well-formed machine, written in four random mixes of spellings, and every history',
     'The tests of the front ends check single rows, not that whole machines agree.',
     [DSL, TUP, D + 'transition.h', D + 'state.h', D + 'event.h'], [('operators of the front end', DSL), ('transition()', TUP)])
prop('C15', 'set() puts the machine exactly into the given states',
     'After set() of a state in each region, is() reports these states, and from then on the machine reacts to every '
     'history like one that reached them by events. set() itself runs no callback and does not modify state objects.',
     ['histories', 'programs'], ALL + ', set() to any configuration at any point of the history',
     'The tests call set() before one event.',
     [SM], [('set', SM)])
prop('C16', 'No undefined behaviour and no dependence on memory contents',
     'No history of operations (events, set(), moving, exchanging dependencies, callbacks that throw) makes a machine '
     'read or write outside living objects, leak, destroy twice or run into undefined behaviour. What a machine does '
     'never depends on what its memory contained before it was constructed.',
     ['histories', 'programs', 'fault_sequences'], ALL + ', with memory filled with two different patterns and allocations of the constructor that fail',
     'The existing tests run without sanitizers and on whatever the stack contains.',
     [SM, D + 'dispatch_table.h', FILL, D + 'create_state.h', D + 'variant_queue.h'],
     [('members of sm', SM), ('state objects owned by the machine', D + 'make_states_map.h')],
     (CALLS, 'AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer', 'object counters'))
prop('C17', 'A throwing callback leaves a usable machine',
     'An exception thrown by a guard or an action reaches the caller of process_event unchanged. Afterwards each region of '
     'the machine is in the source or the target of the transition that threw, no deferred event is lost or duplicated, and '
     'the machine reacts to every later event accordingly.',
     ['fault_sequences', 'histories'], ALL + ', with an exception at any call of any callback',
     'No existing test throws.', [SM, D + 'variant_queue.h'], [('state is written before the action runs', SM)])
prop('C18', 'The single header behaves like the library',
     'A program that includes the amalgamated single header instead of the library headers compiles and behaves the same.',
     ['programs', 'histories'], 'every well-formed machine and every history, both headers',
     'The tests only include the library headers.', ['include/hsm/gen/hsm.h', 'include/hsm/hsm.h'],
     [('amalgamation', 'include/hsm/gen/hsm.h')])
prop('C19', 'Action chains, transition log and status report tell the truth',
     'chain_actions runs its actions exactly once each from left to right. hsm::log prints one line per transition that '
     'names its source, event and target, and status() prints a text that is the same for equal and different for '
     'different configurations of a machine.',
     ['programs', 'histories'], ALL + ', with chains of up to three actions and log in any position',
     'The tests only check that logging compiles and that one chain of two runs.',
     [D + 'chain_actions.h', D + 'log.h', SM], [('chain_actions', D + 'chain_actions.h'), ('log', D + 'log.h'), ('status', SM)],
     (CALLS, 'standard output'))
prop('C20', 'Callbacks see the event object itself',
     'Every callback of every region is handed the very event object process_event was called with, so that its data is '
     'complete and changes by one callback are seen by later ones and, for a modifiable object, by the caller. A deferred event '
     'is replayed with the data it had when it was deferred.',
     ['inputs', 'programs', 'histories'], ALL + ', with payloads from the whole range, callbacks modifying them, and events that cannot be copied or moved',
     'The tests pass events with a constant member once.',
     [SM, D + 'dispatch_table.h', D + 'variant_queue.h'], [('event forwarded by reference', SM)])
prop('C21', 'Machines do not influence each other',
     'Several machines of one type, used in turns or each by a thread of its own, behave as if each were alone; in particular '
     'they share no state objects, dependencies, deferred events, history or current state. Using each machine from one '
     'thread at a time is free of data races.',
     ['schedules', 'histories', 'programs'], ALL + ', three machines of one type in turns and on threads',
     'No existing test has two machines of one type or threads.',
     [SM, FILL, D + 'dispatch_table.h'], [('tables are members of sm', SM)],
     (CALLS, 'ThreadSanitizer'))
prop('C22', 'A moved machine continues where the original stopped',
     'A machine constructed by moving from another one reacts to every further history exactly as the original would have, '
     'with its current states, state data, history, deferred events and dependencies, even after the original is gone.',
     ['histories', 'programs'], ALL + ', moved at any point, any number of times',
     'No existing test moves a machine.', [SM, D + 'dispatch_table.h', FILL],
     [('tables refer to states by owning pointers', FILL)])
prop('C23', 'Ill-formed machines do not compile',
     'A machine over a state without transition table, with an empty table, without initial state, or whose initial state is '
     'a composite state or has internal transitions does not compile. Neither does process_event() with an event, or set() '
     'with a state or parent, that the tables do not mention.',
     ['programs'], 'well-formed machines with exactly one element made ill-formed',
     'A test that does not compile cannot be part of the test suite.',
     [SM, D + 'traits.h', D + 'transition_table_traits.h', DSL, D + 'collect_initial_states.h'],
     [('static_assert in sm', SM), ('traits', D + 'traits.h')], ('exit status of the compiler',))
prop('C24', 'Compilers, language versions and optimisation levels agree',
     'The same machine compiles and behaves the same with each supported compiler (gcc, clang), language version (C++17, '
     'C++20) and optimisation level.',
     ['configurations', 'programs', 'histories'], 'every well-formed machine and history under five configurations',
     'The tests are built with one configuration.', [SM, DSL, D + 'idx.h', D + 'switch.h'], [('constexpr tables', FILL)])
prop('C25', 'Edits that do not concern a machine do not change it',
     'Reordering rows that do not compete, declaring callbacks, states, transitions and events that are never reached or '
     'sent, does not change how a machine reacts to any history.',
     ['programs', 'histories'], 'every well-formed machine with random irrelevant edits and every history',
     'The tests look at single machines and never compare two.',
     [FLAT, D + 'collect_states.h', D + 'collect_events.h', D + 'collect_initial_states.h', D + 'remove_duplicates.h',
      D + 'make_states_map.h'], [('collecting and numbering of states and events', D + 'collect_states.h')])
prop('C26', 'Size does not matter',
     'Machines with several hundred combined states, dozens of rows, 15 events, nine regions or five levels of nesting '
     'behave as their tables say, like small ones.',
     ['programs', 'histories'], 'generated machines at these sizes, histories of up to 300 operations',
     'The machines of the tests have a handful of states.',
     [D + 'make_states_map.h', D + 'switch.h', D + 'idx.h', SM], [('indices of states and parents', D + 'idx.h')])

prop('C27', 'The kind of a user type does not matter',
     'How a machine reacts does not depend on how the types of states, events and callbacks are made: final, over-aligned, '
     'large, polymorphic or template types, types with operators of their own (address, comma, comparison), members named like '
     'those of the library; guards and actions that are function objects, lambdas or function pointers, guards whose '
     'result merely converts to bool, actions that return something.',
     ['programs', 'histories'], 'every well-formed machine, every choice of such forms for its types, and every history',
     'All types of the tests are empty structs and lambdas.',
     [D + 'dispatch_table.h', D + 'chain_actions.h', RES, D + 'make_states_map.h', D + 'variant_queue.h'],
     [('callbacks called through DispatchTableEntry', D + 'dispatch_table.h'), ('chain_actions', D + 'chain_actions.h')])
prop('C28', 'Memory and work do not grow with the length of the history',
     'The memory a machine holds depends on the events that are pending at present, not on how many operations (events, '
     'set(), set_dependency(), moving, exceptions) it went through. The same event in the same situation asks as many guards at '
     'the end of a long history as at its beginning.',
     ['histories', 'programs', 'fault_sequences'], ALL + ', each history repeated forty times on the same machine',
     'The histories of the tests have a few steps.',
     [SM, D + 'variant_queue.h', D + 'dispatch_table.h'],
     [('deferred events', D + 'variant_queue.h'), ('set_dependency refills the tables', SM), ('history', SM)],
     (CALLS, 'operator new and delete'))

TECH = dict(
    shapes='property-based testing: metamorphic relation over the forms of user types in generated machines',
    model='property-based testing: generated machines and histories against a reference model, with shrinking',
    styles='property-based testing: metamorphic relation over spellings of generated machines',
    edits='property-based testing: metamorphic relation over irrelevant edits of generated machines',
    variants='property-based testing: differential testing of generated machines and histories',
    reject='property-based testing: generated machines with one injected error, oracle is the compiler')
EXTRA = dict(C28=', each history repeated, with memory metered at operator new and delete',
             C16=' under AddressSanitizer and UndefinedBehaviorSanitizer, on two memory patterns',
             C21=' with three machines in turns and on threads under ThreadSanitizer',
             C22=' under AddressSanitizer and UndefinedBehaviorSanitizer')
NOTE = dict(
    model='Random search: no violation in the machines and histories drawn (numbers in the evidence). Trusts the reference '
          'model harness/model.h, which is independent of the code under test, and covers the machine domain of DESIGN.md.',
    styles='Random search over tables and mixes of spellings; all mixes run the same histories and have to agree in every '
           'callback, result and configuration.',
    edits='Random search over tables and edits; all forms run the same histories and have to agree in every callback, result '
          'and configuration.',
    shapes='Random search over machines and forms of types; both forms run the same histories and have to agree in every '
           'callback, result and configuration.',
    variants='Random search; the same machine built in each way runs the same histories and has to agree in every callback, '
             'result and configuration.',
    reject='Random search over machines times the listed kinds of errors; each machine is first shown to compile without the '
           'error.')


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    import props
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        k = props.PROPS[p['id']].kind
        checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 tools/check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=TECH[k] + EXTRA.get(p['id'], ''), level='exploration', level_note=NOTE[k]))
    m = dict(version=1, setup_cmd='python3 tools/check.py setup', checks=checks, not_applicable=[],
             notes='No hooks in /repo. Replay a violation with: python3 tools/check.py replay FILE. Known findings: '
                   'known_findings.json.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
