"""Exhaustive exploration of the design model Veigar.tla: configurations, and reintroduced defects it has to refute."""
import sys, time
import trace, walks

BASE = {'Insts': '1..2', 'Proc': '<<1,2>>', 'Chans': '1..2', 'NS': '1', 'NR': '1', 'NW': '1', 'ND': '1', 'Cap': '1', 'LtBudget': '0', 'EarlyTmo': 'FALSE',
        'Bug': '"none"'}
THREE = {'Insts': '1..3', 'Proc': '<<1,2,3>>'}


def app(proc, *ops):
    return '<<%d,<<%s>>>>' % (proc, ','.join('<<' + ','.join('"%s"' % w if not w.isdigit() else w for w in o.split()) + '>>' for o in ops))


def prog(*apps):
    return '<<' + ','.join(apps) + '>>'


SERVE = app(2, 'bind 2 0', 'init 2 2', 'set 2')
CONFIGS = {
    # one call
    'one': ({}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s'), SERVE)),
    # two calls, room for one
    'two': ({}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'call 1 2 c'), SERVE)),
    # an instance that calls itself
    'self': ({'Insts': '1..1', 'Proc': '<<1>>', 'NW': '2'}, prog(app(1, 'bind 1 0', 'init 1 1', 'call 1 1 s', 'call 1 1 p', 'uninit 1'))),
    # nobody there
    'absent': ({}, prog(app(1, 'init 1 1', 'call 1 2 s', 'set 1'), app(2, 'bind 2 0', 'init 2 2'))),
    # caller and callee stop
    'down': ({}, prog(app(1, 'init 1 1', 'set 1', 'wait 2', 'call 1 2 s', 'uninit 1'), app(2, 'bind 2 0', 'init 2 2', 'set 2', 'wait 1', 'uninit 2'))),
    # one thread calls while another one stops the instance
    'updown': ({}, prog(app(1, 'init 1 1', 'wait 2', 'set 3', 'uninit 1'), app(1, 'wait 3', 'call 1 2 p'), SERVE)),
    'updown2': ({}, prog(app(1, 'init 1 1', 'wait 2', 'set 3', 'uninit 1'), app(1, 'wait 3', 'call 1 2 s'), SERVE)),
    # ... that calls itself
    'updown0': ({'Insts': '1..1', 'Proc': '<<1>>'}, prog(app(1, 'bind 1 0', 'init 1 1', 'set 3', 'uninit 1'), app(1, 'wait 3', 'call 1 1 p', 'call 1 1 s'))),
    # the callee stops, another one takes its channel
    'restart': (THREE, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s', 'set 3', 'wait 4', 'call 1 2 s'),
                            app(2, 'bind 2 0', 'init 2 2', 'set 2', 'wait 3', 'uninit 2', 'set 5'),
                            app(3, 'bind 3 0', 'wait 5', 'init 3 2', 'set 4'))),
    # ... while a call is on its way
    'over': (THREE, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'wait 4', 'call 1 2 s'),
                         app(2, 'bind 2 0', 'init 2 2', 'set 2', 'uninit 2', 'set 5'),
                         app(3, 'bind 3 0', 'wait 5', 'init 3 2', 'set 4'))),
    # the callee is killed, another one takes its channel
    'kill': (THREE, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s', 'set 3', 'wait 4', 'call 1 2 s'), SERVE,
                         app(3, 'bind 3 0', 'wait 3', 'kill 2', 'init 3 2', 'set 4'))),
    # ... at any moment of its work
    'ownkill': ({}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'set 3'), SERVE, app(3, 'kill 2'))),
    # the caller is killed and comes back
    'caller': (THREE, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'set 3'), SERVE, app(3, 'wait 3', 'kill 1', 'init 3 1'))),
    # locks may time out
    'lt': ({'LtBudget': '1'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s'), SERVE)),
    'lt1': ({'LtBudget': '1'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'call 1 2 s'), SERVE)),
    'lt2': ({'LtBudget': '1', 'NW': '2'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s'), SERVE)),
    # synchronous calls may time out at any moment
    'early0': ({'EarlyTmo': 'TRUE'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s', 'uninit 1'), SERVE)),
    'early1': ({'EarlyTmo': 'TRUE'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 s', 'call 1 2 p'), SERVE)),
    # a bound function calls back
    'nest': ({}, prog(app(1, 'bind 1 0', 'init 1 1', 'wait 2', 'call 1 2 s'), app(2, 'bind 2 1', 'init 2 2', 'set 2'))),
    # several senders, a queue without room
    'wide': ({'NS': '2'}, prog(app(1, 'init 1 1', 'wait 2', 'call 1 2 p', 'call 1 2 p', 'call 1 1 p'), SERVE)),
    'wide2': ({'NS': '2', 'NW': '1'}, prog(app(1, 'bind 1 0', 'init 1 1', 'call 1 1 p', 'call 1 1 p'))),
    # room for both
    'cap2': ({'Cap': '2', 'Insts': '1..1', 'Proc': '<<1>>'}, prog(app(1, 'bind 1 0', 'init 1 1', 'call 1 1 p', 'call 1 1 p'))),
}
CONFIGS['wide2'][0].update({'Insts': '1..1', 'Proc': '<<1>>'})

# property -> configurations of a quick check, further ones of a thorough one
USE = {
    'C01': (['one', 'self'], ['early1', 'down', 'two']),
    'C02': (['self'], ['two', 'caller']),
    'C03': (['one'], ['two', 'restart']),
    'C08': (['lt', 'lt2'], ['lt1']),
    'C09': (['wide2'], ['two', 'wide']),
    'C10': (['early0'], ['early1']),
    'C11': (['absent'], ['restart']),
    'C13': (['updown0', 'updown'], ['updown2', 'down']),
    'C17': (['ownkill', 'kill'], ['caller']),
    'C18': (['restart'], ['kill', 'over']),
    'C20': (['nest'], ['two']),
    'C23': (['wide2'], ['wide']),
}
# reintroduced defect -> a configuration that refutes it
BUGS = {
    'unset-late': ('self', 'C08'),
    'ongoing-late': ('wide2', 'C01 C02'),
    'stale-cache': ('restart', 'C18'),
    'no-close': ('restart', 'C18'),
    'stale-open': ('kill', 'C17 C18'),
    'stale-names': ('kill', 'C17'),
    'wait-locked': ('wide2', 'C09'),
    'no-notify': ('cap2', 'C08'),
    'signal-lost': ('lt', 'C08'),
    'complete-any': ('self', 'C01 C03'),
    'no-erase': ('self', 'C01'),
    'list-open': ('updown0', 'C13'),
    'unsent-lost': ('self', 'C13 C01'),
    'ongoing-lost': ('self', 'C13 C01'),
    'no-chain': ('wide2', 'C23'),
}
# Not refuted, because another guard makes them harmless: fail-twice, open-unchecked, stale-push (a queue closed by its owner is noticed by the other one).
INVARIANTS = ['Promise', 'Settled', 'Served']


def explore(name, bug='none', workers=7, timeout=700, heap='10g'):
    """(transitions, states), or None if the defect is refuted"""
    over, program = CONFIGS[name]
    c = dict(BASE, **over)
    c['Prog'] = program
    c['Bug'] = '"%s"' % bug
    try:
        _out, st = walks.run('Veigar', c, invariants=INVARIANTS, workers=workers, heap=heap, timeout=timeout)
        return st
    except trace.HarnessError as e:
        if bug != 'none' and 'is violated' in str(e):
            return None
        raise


if __name__ == '__main__':  # design.py CONFIGS [BUGS]
    for b in (sys.argv[2].split(',') if len(sys.argv) > 2 else ['none']):
        for n in sys.argv[1].split(','):
            t = time.time()
            try:
                r = explore(n, b, timeout=int(sys.argv[3]) if len(sys.argv) > 3 else 700)
            except Exception as e:
                r = str(e)[-1500:]
            print(b, n, 'refuted' if r is None else r, '%.1fs' % (time.time() - t), flush=True)
            if b != 'none' and r is None:
                break
