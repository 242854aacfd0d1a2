"""Which test decides which property."""
def u(pkg, test, **kw): return dict(pkg=pkg, test=test, **kw)
def c(*units, **kw): return dict(units=list(units), **kw)

CHECKS = {}
for i in ("C01", "C02", "C03", "C04", "C05", "C06"):
    CHECKS[i] = c(u("wire", "Test" + i))
for i in (10,11,12,13,14,15,16,17,18,20):
    # part of the cases once more under the race detector
    CHECKS['C%d'%i] = c(u('nodep', 'TestC%d'%i), u('nodep', 'TestC%d'%i, race=True, part=0.25))
CHECKS['C20']['units'].append(u('nodep', 'TestC20Start', race=True))
CHECKS['C19'] = c(u('nodep', 'TestC19', race=True))
for i in (30, 31, 32, 33):
    CHECKS['C%d' % i] = c(u('store', 'TestC%d' % i))
for i in (30, 31):
    CHECKS['C%d' % i]['units'].append(u('store', 'TestC%dConcurrent' % i, race=True))
CHECKS['C30']['units'].append(u('store', 'TestC30Ancestors'))
CHECKS['C32']['units'].append(u('store', 'TestC32Big'))
CHECKS['C32']['level'] = 'fault_enumeration'

for i in (40, 41, 44):
    CHECKS['C%d' % i] = c(u('scan', 'TestC%d' % i))
for i in (41, 44):
    CHECKS['C%d' % i]['units'].append(u('scan', 'TestC%dConcurrent' % i, race=True))
CHECKS['C42'] = c(u('scan', 'TestC42'), u('scan', 'TestC42Weather'), level='fault_enumeration')
CHECKS['C43'] = c(u('scan', 'TestC43'), u('scan', 'TestC43Bad'))

CHECKS['C50'] = c(u('svc', 'TestC50'), u('svc', 'TestC50Concurrent', race=True))

CHECKS['C51'] = c(u('svc', 'TestC51', race=True))

CHECKS['C52'] = c(u('svc', 'TestC52', race=True), u('svc', 'TestC52Stalled'), u('svc', 'TestC52Idle'))

CHECKS['C53'] = c(u('svc', 'TestC53'))

CHECKS['C54'] = c(u('svc', 'TestC54'), u('svc', 'TestC54History', race=True), u('svc', 'TestC54Stalled'), level='fault_enumeration')

CHECKS['C55'] = c(u('svc', 'TestC55Env'), u('svc', 'TestC55Cli', cmd='neutrino'))

CHECKS['C56'] = c(u('svc', 'TestC56', race=True))

CHECKS['C57'] = c(u('svc', 'TestC57', race=True))
CHECKS['C58'] = c(u('svc', 'TestC58', cmd='neutrino'))
CHECKS['C59'] = c(u('svc', 'TestC59', cmd='neutrinod', cmdrace=True), level='fault_enumeration')

ASSUMPTIONS = {}
