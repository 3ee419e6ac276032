"""The harness instances of each property, their bounds and their assumptions."""
import itertools, json, os
from spec import Job, path, prog, ft, jt, BEGIN

HERE = os.path.dirname(os.path.abspath(__file__))
ANY = 9  # any method


def _route(kind, mode, pth, pr, m=0, **o):
    return Job(kind, [mode, path(pth), m] + prog(pr), '%s [%s]' % (pth, pr), **o)


def route(mode, pth, pr, m=0, **o):
    return _route('route', mode, pth, pr, m, **o)


def serve(mode, pth, pr, m=0, busy=0, known=0, **o):
    j = _route('serve_route', mode, pth, pr, m, **o)
    j.params += [busy, known] if known else [busy] if busy else []
    return j


KNOWN = ['G 1; G *; P 2', 'P p; G pq; G pqr', 'M p; G p; [ pq; G ; H; G r; ]', 'H; G 1*; M 1; G 2p; M *; G 1p']


def known(mode, t):
    """words in paths that other servers know"""
    return [serve(mode, p, pr, 0, 0, known=a) for pr in KNOWN for p, a in (('', 1), ('~', 1), ('~', 2), ('~~', 3), ('~', 4)) + ((('~~~', 1), ('~~~', 2), ('~~~', 3), ('~~', 4)) if t else ())]


def over_path(entry, pth, pr, *mid, **o):
    return Job(entry, [path(pth)] + list(mid) + prog(pr), '%s [%s]' % (pth, pr), **o)


# ---- routing ---------------------------------------------------------------------------

# tables of routes, and a path that reaches all of them
TABLES = [
    ('?????', 'G 1; G 2; G 3'),
    ('?????', 'G 1; G 1; G 1; G 2; G 2'),
    ('??????', 'G 11; G 12; G 2'),
    ('??????', 'G 1*; G 2; G 1'),
    ('??????', 'G 1p; G 2; G *'),
    ('??????', 'G p1; G p2; G p'),
    ('??????', 'G 1p*; G 2*; G *'),
    ('??????', 'G 12; G 1*; G *'),
    ('??????', 'G 21; G 2*; G 12'),
    ('??????', 'G 111; G 1*; G *'),
    ('???????', 'G 1111; G 112; G 1*'),
    ('??????', 'G ; G *; G 11'),
    ('??????', 'G 2*; G 3*; G *'),
    ('??????', 'G p*; G p; G '),
    ('??????', 'G p1*; G p11; G p2'),
    ('??????', 'G 1; G 1p; G 1pq'),
    ('??????', 'G 1pq; G 11; G 1*'),
    ('??????', 'G 22; G 23; G 2*'),
    ('??????', 'G 3; G 2*; G 1*; G *'),
    ('??????', 'G 31; G 2; G 3'),
    ('??????', 'G a; G B; G C; G 1; G 2'),
    ('??????', 'G aa; G aB; G B; G C; G 2*'),
    ('?é????', 'G 4; G 9; G 1; G f'),
    ('??é?', 'G 4; G 4*; G 9; G 1'),
    ('?€??', 'G 1p; G 4p; G 4'),
    ('?é?é?', 'G 4p; G 9*; G f; G *'),
    ('?é?é', 'G 44; G 4*; G 14'),
    ('??????', '[ 1; G 1; G 1p; ]; G 2'),
    ('??????', '[ 2; G 1; G *; ]; G 2; G 1'),
    ('???????', '[ 1; [ 1; G 1; G ; ]; G 2; ]; G 12'),
    ('??????', '[ p; G 1; G ; ]; P p11'),
    ('??????', 'G 1; [ 2; G ; G 1*; ]; G *'),
    ('??????', 'H; [ ; G 1; G 2*; ]; G 11'),
    ('??????', 'M 12; G 1*; M 2; G *'),
    ('??????', 'M 1; M 2; G 11; G 2'),
    ('/A/???', 'G A1; G A*; G A; G A2'),
]
METHODS = [
    ('???', 'G 1; P 1; U 1; T 1; D 1'),
    ('????', 'G 1; P 2; G *; P *'),
    ('????', 'G 1p; P 1p; U 1; D 11'),
    ('????', 'P 1; G 1*; D 2; T *'),
    ('????', '[ 1; G 1; P ; ]; P 2; U 1'),
    ('??', 'G ; P ; D *; T *'),
    ('????', 'T p; D p1; U p*; P p'),
]
SERVED = [
    ('~~~~', 'G 1; G 2; G 3'),
    ('~~~~~', 'G 11; G 12; G 1*'),
    ('~~~~~', 'G 1p; G 2*; P *'),
    ('~~~~~', 'P p1; G p2; G p'),
    ('~~~~~', 'H; [ 1; G 1; G 1p; ]; G 2; G *'),
    ('~~~~~', 'G 3; [ 1; G 1; G ; G *; ]; M 2; G 2'),
    ('~~~~~', '[ 2; [ 1; G ; P 1; ]; G *; ]; [ 1; G ; G *; ]'),
]
# all pairs and triples over these
LETTERS = ['', '1', '2', '11', '12', '21', '1*', '2*', '*', 'p', 'pq', '1p', 'p1', '11*', 'p*', '1p*', '1p1', '2p']


def clash(a, b, dup):
    """do two patterns exclude each other whatever their literals are"""
    for x, y in zip(a, b):
        if x == y and not x.isdigit():
            continue
        return 'p' in (x, y) or 'q' in (x, y) or 'r' in (x, y)
    return dup and a == b


def possible(pr):
    """could a flat program be accepted"""
    ops = [o.split() for o in pr.split(';')]
    ops = [(o[0], o[1] if len(o) > 1 else '') for o in ops if o]
    return not any(clash(a[1], b[1], a[0] == b[0] and a[0] in 'GPUTD') for a, b in itertools.combinations(ops, 2))


def tables(n, letters, pth, mode=1):
    for c in itertools.combinations_with_replacement(letters, n):
        pr = '; '.join('G ' + s for s in c)
        if possible(pr):
            yield route(mode, pth, pr)


def table(mode, t):
    """tables of applications, and the requests near to what they contain"""
    return [Job('table', [mode, i, change, part]) for i in range(9) for change in range(5) for part in range(2 if i == 5 else 4)]


LARGER = [(0, 130), (1, 70), (2, 270), (3, 140), (4, 130), (5, 60), (6, 1000), (7, 300), (8, 26), (9, 5000)]
LARGE = [(0, 30), (1, 24), (2, 60), (3, 40), (4, 20), (5, 16), (6, 40), (7, 20), (8, 7), (8, 18), (9, 40), (9, 300)]


def large(mode, t):
    """many registrations"""
    return [Job('large', [mode, k, n, a, c]) for k, n in LARGE for a in range(6 if k in (2, 8) else 5) for c in range(2)] + \
        [Job('large', [mode, k, n, a, 0], steps=200000000) for k, n in LARGER for a in (range(5) if t else (0, 1, 3) if k == 9 else (0, 1))]


def c01(t):
    js = table(1, t) + large(1, t) + known(1, t) + [route(1, p, pr) for p, pr in TABLES]
    js += [route(1, p, pr, ANY) for p, pr in METHODS]
    js += [serve(1, p, pr) for p, pr in SERVED]
    js += [serve(1, 'zz', 'G 1; P 2; U 1; T 2; D 2', ANY), serve(1, '/z', 'P 1; G *; D *', ANY)]
    js += [serve(1, p, pr, ANY, b) for b in (1, 2) for p, pr in (('zz', 'G 1; P 2; U 1; T 2; D 2'), ('~~', 'G 1; P *; M 1; D ; [ 1; U ; ]'))]
    js += [serve(1, p, pr, 10) for p, pr in (('z', 'G 1; P 2; U 1; T 2; D 2'), ('/a', 'G a; P a; U a; T a; D a'), ('~', 'G *; P *; [ 1; G ; P ; ]'), ('/a', 'D a; M a'), ('/a', 'U a; T a'), ('/a', 'P a'))]
    if t:
        js += [route(1, p + '?', pr) for p, pr in TABLES]
        js += list(tables(2, LETTERS, '???????')) + list(tables(3, LETTERS, '??????'))
        js += [serve(1, p + '~', pr) for p, pr in SERVED]
        js += [serve(1, '../.', pr) for p, pr in SERVED[:3]]
    else:
        js += list(tables(2, LETTERS, '??????'))
        js += list(tables(3, ['', '1', '2', '12', '1*', '*', 'p', '1p', 'p1', '2*'], '?????'))
    return js


PARAMS = [
    ('??????', 'G 1p; G 2'), ('??????', 'G 1pq; G 2; G *'), ('??????', 'G p1; G p2; G p'), ('??????', 'G p1q; G p2'),
    ('??????', 'G pq*; G p'), ('???????', 'G pqr'), ('??????', 'G 1p*; G 1p2'), ('??????', 'G pq1; G pq'),
    ('??????', '[ p; G q1; G ; ]'), ('??????', '[ 1; G p; ]; G 2p'), ('??????', '[ 1p; G q; M q; G ; ]'),
    ('?é?é?', 'G p4; G p4q'), ('?€?é', 'G p; G pq; G pqr'), ('?????', 'G 1p; G 2*; G *'), ('??????', 'G 12; G 1*; G 2p'),
    ('??????', 'M p; G p1; H; G p'), ('??????', 'G 1p1; G 1p2; G 1p'),
]


def c02(t):
    js = table(2, t) + large(2, t) + known(2, t) + [route(2, p + '?', pr) for p, pr in PARAMS]
    js += [serve(2, '~~~~~~', pr) for pr in ('G 1pq; G 2p', 'P p; G pq', 'H; [ p; G q; G q*; ]', 'P p; G p1; G p2q')]
    js += [serve(2, '~~~~', pr, 0, b) for b in (1, 2) for pr in ('G 1pq; G 2p', 'P p; G pq')]
    for kind in range(7):
        for layout in range(6):
            js.append(Job('param', [kind, path('....' if kind == 0 or layout in (0, 2) else '...'), layout, 0, 0], 'any text'))
        js.append(Job('param', [kind, path('..'), kind % 6, 1, 0], 'absent name'))
        js.append(Job('param', [kind, path('.'), 1 + kind % 4, 2, 0], 'other name'))
        for b in range(1, len(BEGIN)):
            js.append(Job('param', [kind, path('99'), b % 6, 0, b], 'begins with ' + BEGIN[b]))
    js += [Job('param', [k, path(p), 0, 0, 0]) for k, p in ((5, 'zzzz'), (5, 'zzzzz'), (1, '999'))]
    if t:
        js += [route(2, p + '???', pr) for p, pr in PARAMS]
        js += list(tables(2, [x for x in LETTERS if x], '???????', 2)) + list(tables(3, LETTERS, '?????', 2))
        for kind in range(7):
            js += [Job('param', [kind, path('.....'), l, 0, 0]) for l in range(6)]
            js += [Job('param', [kind, path('999'), l, 0, b]) for l in range(6) for b in range(len(BEGIN))]
    return js


ACCEPT_LAST = ['G 1', 'P 1', 'G 2', 'G 11', 'G 12', 'G *', 'G 1*', 'G p', 'G q', 'G 1p', 'G p1', 'G pq', 'G *1', 'G 1*1', 'G ',
               'M 1', 'M 11', 'M p', 'M *', 'M *1', 'H', '[ 1; G 1; ]', '[ ; G 2; ]', '[ p; G 1; ]', '[ 1; ]', '[ 11; M 1; ]', '[ 1; P p; ]']
ACCEPT_BEFORE = ['H; G ', 'G p; M p', 'H; P ', 'M 1; P 1', 'G 11; G 2', 'G 21; M 3', '', 'G 1', 'G p', 'G *', 'G 1*', 'G 1p', 'G 11; G 1', 'M 1', 'M p', 'M 1p; G 2', 'H', 'G ', 'G p1', '[ 1; G 1; ]', '[ p; G 2; H; ]', '[ 1; G p; ]',
                 '[ ; G 1; ]', 'M *', 'G 2; P 1; U 2', 'G 12; M 1*', 'G pq; P p']


def c03(t):
    js = []
    for a in ACCEPT_BEFORE:
        for b in ACCEPT_LAST:
            pr = a + '; ' + b if a else b
            js.append(Job('accept', prog(pr), '[%s]' % pr))
    js += [Job('table_more', [i, k, c, part]) for i in range(9) for k in (0, 3, 10, 20) for c in range(4) for part in range(2 if i == 5 else 4) if (i, k, part) not in ((3, 20, 3), (5, 20, 1))]
    fronts = [(0, 3, 0, 3), (0, 2, 0, 4), (0, 4, 0, 2), (1, 1, 1, 3), (1, 3, 1, 1), (1, 3, 1, 3), (2, 2, 2, 2), (3, 3, 3, 2), (3, 1, 0, 5), (4, 2, 1, 3), (5, 1, 4, 3), (5, 3, 5, 2)]
    js += [Job('pair_text', [k, a, n, l, b, o]) for a, n, b, o in fronts for k, l in ((0, 0), (0, 1), (10, 0), (1, 10), (20, 1), (0, 20), (10, 20), (20, 10))]
    if t:
        js += [Job('pair_text', [k, a, n + 1, l, b, o + 1], secs=1500) for a, n, b, o in fronts for k, l in ((0, 0), (0, 1), (10, 0), (20, 1), (1, 20))]
    for k in (0, 10, 20):
        for n in range(0, 9 if t else 7):
            js.append(Job('pattern_text', [n, k]))
    if t:
        more = ['G 2p; G 1', 'M 2; [ 11; G p; G ; ]', 'G 111; G 1p1', 'G 4; G 9', 'G 1p*; P 1p', 'H; M 1; M 1', 'D 1; D 2; D 3', 'G 11p; M 11']
        more_last = ACCEPT_LAST + ['D 1', 'G 4', 'G 9', 'G 3', 'G 111', 'G 11p', 'G 1pp', 'G pqr', 'U 2', 'M 1*', 'M 1p1', '[ 11; [ 1; G ; ]; ]', '[ 1p; G 1; ]']
        js += [Job('accept', prog(a + '; ' + b), '[%s; %s]' % (a, b)) for a in more + ACCEPT_BEFORE[1:] for b in more_last]
    return js


ORDER = ['M B; M B; G a; G B1; G C', 'M C; G B1; M C; M B; G C1', 'M 2; M 2; G 1; G Ba', 'M 12; M 12; G 1; G 12', 'M 2; H; M 2; G 1', 'M 3; G 2; M 3; G 31', 'M p; M p; G p1', 'H; H; M 1; M 1; G 1', 'G 12; G 2*; G 3; M 2', 'G 1; G 2; G 3', 'G 1*; G 2; G 1', 'G 11; G 12; G 2', 'G *; G 1; G ; G 2*', 'G 1p; G 2; G *', 'G p1; G p2; G p',
         'G 111; G 1*; G *', 'M 1; G 11; M 11; G 1*', 'H; M 2; G 2*; G 1', 'G 2; [ 1; G 1; M 1; G *; ]; G *', '[ 1; G p; H; ]; [ 2; G p; H; ]',
         'G 4; G 9; G 1', 'G a; G B; G C; G 1', 'M p1; G p1; G p; M p', 'G 1p1; G 1p2; G 2', 'G 22; G 21; G 2', 'M 1*; G 1*; G 11']


def c04(t):
    js = table(6, t) + large(6, t)
    for pr in ORDER:
        js.append(over_path('order', '?é???' if '4' in pr else '?????', pr))
    if t:
        js += [over_path('order', '???????', pr) for pr in ORDER]
    ls = LETTERS if t else ['', '1', '2', '12', '1*', '2*', '*', 'p', 'p1', '1p']
    ls = [x for x in ls if x]
    for a, b, c in itertools.combinations_with_replacement(ls, 3) if t else [(a, b, 'm') for a, b in itertools.combinations_with_replacement(ls, 2)]:
        pr = 'G %s; G %s; %s' % (a, b, 'M 1' if c == 'm' else 'G ' + c)
        if possible(pr):
            js.append(over_path('order', '??????' if t else '?????', pr))
    return js


MOUNT = ['G 2; [ 1; G 1; M 1; H; G *; ]', '[ 1; G ; G 1; ]; G 2', '[ 2; G p; H; ]; M 2; G 1', '[ p; G 1; M 1; G ; ]', '[ 11; G ; G *; ]; G 1', '[ 1; [ 1; G ; H; ]; H; G 2; ]',
         'H; [ ; G 1; H; G 2; ]; M 1', 'G 12; [ 2; G 1; G 1p; M 1; ]; G 2', '[ 1p; G 1; H; G ; ]; G 2', '[ 1; G 1*; G *; M *; ]; [ 2; G ; ]',
         'M 1; [ 2; M 1; G 1; H; ]; G 1; H', '[ 1; G 11; M 1; ]; [ 2; G 11; M 1; ]; [ 3; G 11; ]', '[ a; G 1; G ; ]; [ B; G 1; ]; G C', '[ 1; [ 2; [ 1; G ; M 1; ]; H; ]; ]',
         '[ 4; G ; G 4; ]; G 9']


def c05(t):
    js = [Job('table_mounted', [i, change, part]) for i in (0, 1, 2, 4, 5, 6, 7, 8) for change in (0, 1) for part in range(2 if i == 5 else 4)]
    js += large(5, t) + [Job('many_mounts', [n, how, a, c]) for how, n in ((1, 12), (2, 30)) for a in range(5) for c in range(2)]
    js += [Job('scope', [n, path(p)]) for n, p in [(n, p) for n in range(0, 6) for p in ('', '~', '~~', '~~~')] + [(1, '~~~~'), (2, '~~~~~'), (3, '~~~~'), (8, '~'), (10, '')]]
    js += [Job('copy', [path('??'), prog(a)[0], 4] + prog(a + '; ' + b), '[%s | %s] mounted' % (a, b)) for a, b in (('H; G 1', 'H; H; G 2'), ('M 1; G 11', 'M 1; M 1; H; H; H; G 12'), ('G 1; H; H', 'P 1; H; G 2'))]
    js += [over_path('mount', '??é???' if '4' in pr else '??????', pr) for pr in MOUNT]
    subs = ['G ', 'G 1', 'G *', 'G p', 'G 1; M 1', 'G *; H', 'M 1; G 11']
    outs = ['', 'G 2', 'M 1', 'H', 'G *', '[ 2; G 1; H; ]']
    for pre in ['1', '2', 'p', '12', '1p'] if t else ['1', 'p', '12']:
        for s in subs:
            for o in outs:
                if '[' in o and pre[0] != 'p' or possible('%s; G %s' % (o, pre)):
                    js.append(over_path('mount', '??????' if t else '?????', '%s; [ %s; %s; ]' % (o, pre, s)))
    if t:
        js += [over_path('mount', '???????', pr) for pr in MOUNT]
    return js


SLASH = ['G 1p; G *; H', 'G 1; G 2; G ', 'G 11; M 1; G 12', 'G 1*; G 1; G 2', '[ 1; G ; G p; H; ]', 'G *; G ', 'G p1; G p', 'G 4; G *']


def c06(t):
    js = [over_path('slashes', '????é??' if '4' in pr else '????????', pr) for pr in SLASH]
    js += [Job('slashes', [path(p)] + prog(pr) + [n]) for pr in SLASH for p, n in (('????', 20), ('???', 300), ('', 1000))]
    for kind in (0, 10, 20):
        for n in (range(0, 8) if t else range(0, 7)):
            js.append(Job('slash_pattern', [n, path('??????' if t else '?????'), kind]))
    if t:
        js += [over_path('slashes', '??????????', pr) for pr in SLASH]
    return js


CHAINS = ['H; M 2; G 21; M 1; G 1; M 21', 'M 1;[ 2; M 1; G 1; H; ]; G 1; H', '[ 1; G 1; M 1; H; ]; M 1; H', 'M 1; M 2; G 11; G 2; G *', 'M 11; G 1*; M 1*; G 11', 'M *; G *; M 1; G 1',
          'H; H; M 1; M 1; G 1; G 2', 'M p; G p1; M p1; G p', 'M 1p; G 1p1; M 1; G 2', 'M 12; G 1*; M 2; G *', 'M 2; M 1; G 2; G 1; M 21', 'G 11; M 1; G 12; M 12; H',
          '[ 1; [ 1; G ; H; M 1; G 1; ]; H; M 1; ]; M 11', '[ p; H; G 1; M 1; ]; M p1; H', 'M a; M B; M C; G a; G B; G C1', 'M aa; G a; G aaB; M B; G B', 'M 2; G 2*; M 2; G 21',
          'M 4; G 4; M 9; G 9; G 1', 'H; [ ; H; M 1; G 1; ]; M 1; G 2', 'M ; G ; M 1; G *', 'M 1; P 1; G 1; M 1', 'M 111; M 11; M 1; G 111; G 11']


HEAVY = {'M 2; G 2*; M 2; G 21': '?????', 'M 111; M 11; M 1; G 111; G 11': '?????', 'H; M 2; G 21; M 1; G 1; M 21': '?????', 'M 2; M 1; G 2; G 1; M 21': '?????',
         'M 1; P 1; G 1; M 1': '????'}


def c07(t):
    js = table(3, t) + large(3, t) + known(3, t) + [route(3, '?é????' if '4' in pr else HEAVY.get(pr, '??????'), pr, ANY if 'P' in pr else 0) for pr in CHAINS]
    for pr in CHAINS[:4] + ['[ 2; M 1; G 1; H; ]; G 1; H', '[ 1; H; G *; M *; ]; [ 2; G 1; H; ]; H', 'G 1; [ 2; G ; H; [ 1; H; G p; ]; ]; M 2']:
        js.append(serve(3, '~~~~~' if t else '~~~~', pr))
    js += [serve(3, '~~~', pr, 0, b) for b in (1, 2) for pr in CHAINS[:2]]
    ms = ['', '1', '2', '11', '12', '*', '1*', 'p', '1p', '21']
    gs = ['1', '2', '11', '12', '*', '1*', 'p', '1p', '21']
    for m in ms:
        for g in gs:
            js += [route(3, '?????', pr) for pr in ['G %s; M %s; G 1; H' % (g, m)] if possible(pr)]
            if t:
                js += [route(3, '??????', pr) for pr in ['M %s; G %s; M %s; G %s' % (m, g, m2, g2) for m2 in ms for g2 in gs] if possible(pr)]
    if t:
        js += [route(3, '????', 'M 3; G 3; M 2; G 2*; G 31', secs=3000)]
        js += [route(3, '??é?????' if '4' in pr else '???????', pr, secs=3000) for pr in CHAINS]
    return js


def c08(t):
    js = [Job('chain', [n, l, 9]) for l in range(3) for n in range(0, 4)] + [Job('chain', [n, l, 0]) for l, n in ((0, 12), (0, 40), (1, 20), (2, 20))]
    if t:
        js += [Job('chain', [4, l, h]) for l in range(3) for h in range(5)] + [Job('chain', [5, l, 9], secs=1500) for l in range(3)]
    return js


def c09(t):
    js = table(4, t) + large(4, t)
    for m in itertools.combinations_with_replacement(['', '1', '11', '*'], 2):
        for g in itertools.combinations(['', '1', '11', '1*', '*', '2'], 2):
            for pr in ('G %s; M %s; M %s; G %s' % (g[0], m[0], m[1], g[1]), 'G %s; M %s; M %s; G %s' % (g[1], m[1], m[0], g[0]), 'M %s; G %s; G %s; M %s; M 2' % (m[0], g[1], g[0], m[1])):
                if possible(pr):
                    js.append(over_path('transparent', '???', pr, 0))
    for pr in CHAINS + ['G 1p; G *; M 12; M 2; H', 'M 1; G *; G 12', 'G 1; M 1*; M 11', 'M 1; M 11; M 111; G *', 'G 2*; M 2; M 21', 'G *; M *', 'G 1*; M 1; M 1*', 'G p; M p; M p1; M p*']:
        js.append(over_path('transparent', '?é????' if '4' in pr else HEAVY.get(pr, '??????'), pr, ANY if 'P' in pr else 0))
        if t:
            js.append(over_path('transparent', '??é????' if '4' in pr else '???????', pr, 0, secs=3000))
    ms = ['1', '2', '11', '12', '*', '1*', 'p', '1p', '21']
    gs = ['1', '2', '11', '12', '*', '1*', 'p', '1p', '21']
    for m in ms:
        for g in gs:
            js += [over_path('transparent', '?????', pr, 0) for pr in ['G %s; M %s; G *' % (g, m)] if possible(pr)]
            if t:
                js += [over_path('transparent', '??????', pr, 0) for pr in ['G %s; M %s; G %s; M %s' % (g, m, g2, m2) for m2 in ms for g2 in gs] if possible(pr)]
    return js


# ---- service ---------------------------------------------------------------------------

def c10(t):
    js = [Job('dispatch', [path(p), n]) for p in ('/', '/z', '/zz', '/.', '//z', '/z/', '/zz/', '/zzz') for n in (0, 3)]
    js += [Job('dispatch', [path(p), 1]) for p in ('/..', '/...', '/~~~~')]
    js += [Job('dispatch', [path(p), 1, b]) for p in ('/z', '/zz', '/.') for b in (1, 2)] + [Job('dispatch', [path('/z'), n, 0]) for n in (300, 2000)]
    js += [Job('error_text', [n, k, m]) for n in list(range(0, 6 if t else 5)) + [80, 300, 70000] for k in range(4) for m in range(2)] + [Job('error_text', [1, 4, m]) for m in range(2)]
    if t:
        js += [Job('dispatch', [path(p), 2]) for p in ('/....', '/.~.~', '/~~~~~')]
    return js


def c11(t):
    js = [Job('response', [nb, nh, k, api]) for api in range(5) for nb, nh, k in ((3, 0, 0), (0, 4, 1), (2, 3, 2), (1, 2, 3), (5, 2, 4), (30, 12, 1), (300, 2, 1), (70000, 1, 1), (2, 300, 1))]
    js += [Job('response', [2, 2, 1, api, b]) for api in range(5) for b in (1, 2)]
    js += [Job('build_ops', [f, a, b]) for f in range(8) for a, b in ((0, 0), (1, 1), (2, 0), (0, 2))] + [Job('build_ops', [0, 3, 0]), Job('build_ops', [4, 1, 2]), Job('build_ops', [7, 2, 1])]
    js += [Job('known_header', [n, api, b]) for n, api, b in ((1, 0, 0), (3, 1, 1), (2, 2, 2), (0, 0, 1))]
    js += [Job('many_headers', [n, how]) for n in (5, 40, 120) for how in range(3)]
    if t:
        js += [Job('response', [nb, nh, k, api], secs=1500) for api in range(5) for nb, nh, k in ((8, 3, 1), (2, 2, 2), (0, 2, 3), (3, 1, 4), (40, 6, 1))]
    return js


def c12(t):
    js = [Job('delivery', p) for p in ((2, 2, 2, 2, 1), (0, 0, 0, 0, 2), (1, 1, 1, 1, 2, 0, 1), (1, 1, 1, 1, 2, 0, 2), (1, 300, 1, 1, 1), (1, 1, 300, 300, 2), (100, 1, 1, 9000, 1), (1, 0, 0, 0, 4), (1, 1, 1, 3, 2), (3, 1, 1, 1, 3), (2, 1, 1, 1, 2, 2), (1, 1, 1, 1, 1, 3), (4, 3, 4, 8, 2), (0, 1, 1, 1, 1, 1), (0, 1, 1, 0, 2, 1))]
    js += [Job('known_request', p) for p in ((1, 1, 0), (2, 99, 0), (0, 1, 1), (1, 99, 2), (6, 6, 0))]
    js += [Job('large_request', p) for p in ((0, 0, 0, 1), (60, 3, 2, 2), (150, 0, 0, 1), (3, 400, 3, 3), (1, 1, 70000, 1), (1, 200, 2, 100))]
    if t:
        js += [Job('delivery', p, secs=1500) for p in ((4, 2, 2, 6, 2), (1, 1, 1, 1, 4), (2, 3, 3, 4, 1))]
    return js


FORMS = ['a=.A&b=A', 'a=A', 'a=A&a=A', 'b=A&a=.&b=.', 'c=.&a=.&c=.', 'a=%hh&b=.', 'a=%AA', 'A=A&b=.', 'AA=.', 'a=.&&b=.', 'a=+A&b=.', 'a&b=A', '', 'a=dd&b=dd&a=d']
NUMBERS = ['a=1dd&b=1d', 'a=1d&a=dd&b=d', 'b=1dd&a=-d']


def c13(t):
    js = []
    for typ in range(22):
        js += [Job('form', [0, typ] + ft(f) + [0, 0, n]) for f, n in (('a=d&b=1', 1), ('a=d', 40), ('a=d', 300))] + [Job('form', [1, typ] + ft('b=d') + [0, 0, 25])]
        js += [Job('form', [0, typ] + ft(f) + [0, 0, 0, n]) for f, n in (('a=.&b=d', 1), ('b=A', 20), ('a=d&b=A', 140))]
        js += [Job('form', [q, typ] + ft(f) + [0]) for q in (2, 3, 4) for f in ('a=A&b=d', '')]
        for f in FORMS:
            js.append(Job('form', [0, typ] + ft(f) + [0], 'body ' + f))
        for f in ['a=.A&b=.', 'A=.&b=A', 'a=%hh&b=.', 'a=dd&b=dd&a=d', '']:
            js.append(Job('form', [1, typ] + ft(f) + [0], 'query ' + f))
        for q, b in ((0, 1), (0, 2), (1, 1), (1, 2)):
            js.append(Job('form', [q, typ] + ft('a=.&b=d') + [0, b], 'other headers'))
        js += [Job('form', [q, typ] + ft('a=d&b=1') + [14]) for q in (0, 1)]
        js += [Job('form', [q, typ] + ft(f) + [0, 0, 0, 0, k]) for q in (0, 1) for f, k in (('b=d', 1), ('a=1&b=d', 2))] + [Job('form', [0, typ] + ft('') + [0, 0, 0, 0, 2])]
        for b in range(len(BEGIN)):
            for f in NUMBERS if t else NUMBERS[b % 3:b % 3 + 1]:
                js.append(Job('form', [0, typ] + ft(f) + [b], 'body %s after %s' % (f, BEGIN[b])))
    js += [Job('form', [0, typ] + ft('a=?&b=?') + [0]) for typ in (0, 1, 8)] + [Job('form', [0, 8] + ft('AAA') + [0]), Job('form', [0, 9] + ft('?=?') + [0])]
    js += [Job('form', [q, typ] + ft('a=1d&a=1d') + [0]) for q in (0, 1) for typ in range(22)] + [Job('form', [0, typ] + ft('a=d&b=1') + [0, 0, n, m]) for typ in (1, 8, 9, 14, 16) for n, m in ((2000, 0), (0, 300))]
    js += [Job('form', [0, 0] + ft(f) + [0]) for f in ('a=d&b=%cc%hh', 'a=d&b=%hh')]
    if t:
        for typ in range(22):
            js += [Job('form', [q, typ] + ft(f) + [0], secs=900) for q in (0, 1) for f in ('a=AA&b=A', 'a=A&a=A&b=A', 'AAAA', 'a=.&b=.&a=.&b=.', 'A=A&A=A', 'a=%AA&b=.', 'a=%hh%hh')]
    return js


def c14(t):
    js = [Job('chunks', p) for p in (
        [0, 1, 1] + ft('a=A'), [0, 2, 0] + ft('a=A&b=.'), [0, 2, 1] + ft('a=A&b=.'), [0, 3, 0] + ft('a=.&b=.'), [0, 3, 1] + ft('a=%hh&b=.'),
        [1, 1, 1] + jt('{xd,y"f"}'), [1, 2, 0] + jt('{xdd,y"f"}'), [1, 2, 1] + jt('{xdd,y"f"}'), [1, 3, 0] + jt('{xd,y"f"}'), [1, 3, 1] + jt('{xd,y""}'),
        [2, 2, 0] + jt('[AA]'), [2, 3, 1] + jt('[A,A]'), [2, 3, 0] + jt('{xAA}'), [2, 2, 0] + jt('??'), [0, 2, 0] + ft('a=?&b=?'), [0, 2, 1] + ft(''), [2, 2, 1] + jt(''), [2, 4, 0] + jt('[d,d]'))]
    js += [Job('chunks', p) for p in ([0, 2, 0] + ft('a=.&b=.') + [300], [0, 2, 1] + ft('a=.') + [9000], [1, 2, 0] + jt('{xd,y"f"}') + [300], [2, 3, 1] + jt('[d]') + [5000], [0, 2, 0] + ft('a=.') + [70000], [1, 2, 0] + jt('{xd,y""}') + [70000], [0, 2, 1] + ft('a=.') + [100, 1], [1, 2, 0] + jt('{xd,y"f"}') + [300, 1], [2, 1, 1] + jt('[d]') + [1100, 1])]
    js += [Job('chunks', p, steps=4000000000, secs=2500) for p in ([2, 1, 0] + jt('d') + [1100000], [0, 1, 0] + ft('a=.') + [1100000])[:2 if t else 1]]
    if t:
        js += [Job('chunks', p, secs=1500) for p in ([0, 4, 1] + ft('a=A&b=.&a=.'), [0, 4, 0] + ft('a=.&b=.'), [0, 5, 0] + ft('a=.&b=.'), [1, 4, 1] + jt('{xdd,y"f"}'), [2, 4, 1] + jt('[A,"A"]'), [2, 3, 0] + jt('[AAA]'), [0, 3, 0] + ft('a=AA&b=A'))]
    return js


def c15(t):
    js = [Job('json_read', [d, c, b], 'begins with ' + BEGIN[b]) for d, c, b in (
        (1, 0, 0), (2, 1, 0), (3, 2, 0), (4, 0, 0), (5, 0, 0), (2, 1, 1), (3, 0, 2), (3, 0, 3), (3, 2, 4), (1, 0, 6), (2, 0, 6), (1, 0, 7), (1, 0, 8), (1, 0, 9), (1, 0, 10), (1, 0, 11), (1, 0, 12), (0, 3, 1))]
    js += [Job('json_any', [ty] + jt(x), x) for ty, x in (
        (0, ''), (0, '?'), (0, '??'), (0, '"A"'), (0, '[AA]'), (0, '{xA}'), (0, 't?'), (0, '[d,d]'), (1, '{xA,yA}'), (1, '{xd,y"A"}'), (1, '{xd}'), (1, '{y"f",xd}A'), (1, '{xd,y"",xd}'), (1, 'A'),
        (2, '[dAd]'), (2, '???[]'), (0, '??d'), (2, '[d]???'), (0, '???t'), (0, '???"f"'), (3, 'A'), (3, 'dd'), (3, '?dd'), (3, 'dd?'), (4, 'AAA'), (4, 'dddd'), (5, 'AAA'), (5, 't'), (5, 'tA'), (6, '"A"'), (6, 'A"A'), (7, '[d,"A"]'), (7, '[d]'), (7, '[d,"",A]'), (8, '{"A":dd}'), (8, '{xd,yA}'), (8, '{xd,xd}'), (9, '"A"'), (9, '{"A":d}'), (9, 'AA'), (2, '[dd,d]'), (2, '[dd]A'), (2, 'A[d]'), (2, '"A"'))]
    js += [Job('json_any', [ty] + jt(x) + [b], x) for b in (1, 2) for ty, x in ((0, '"A"'), (1, '{xd,y"A"}'), (2, '[d,d]'))]
    js += [Job('json_read', [1, n, 0]) for n in (80, 300, 5000)] + [Job('json_write', [k, n]) for k in range(3) for n in (300,)]
    js += [Job('json_write', [k, n]) for k in range(21) for n in ((0, 1, 2) if k < 3 else (0, 1))] + [Job('json_write', [21, 1])] + [Job('json_write', [k, n]) for k in range(22, 32) for n in (0, 1)]
    js += [Job('json_any', [ty] + jt(x) + [0, how, n], x) for ty, x, how, n in ((0, 'd', 1, 20), (0, 'A', 1, 126), (0, 'd', 1, 127), (0, 'd', 1, 128), (0, 'A', 1, 300), (0, '"A"', 2, 200), (2, 'd', 2, 300), (2, 'A', 2, 40), (0, 'A', 3, 60), (0, '{xd}', 3, 200),
                                                                                (1, '{xd,y"A"}', 4, 40), (0, 'd', 4, 70000))]
    js += [Job('json_any', [ty] + jt('') + [b, 5, c]) for ty in range(10) for b, c in ((0, 0), (0, 1), (1, 0))]
    if t:
        js += [Job('json_any', [ty] + jt(x), x, secs=1500) for ty, x in ((0, '???'), (0, '[AAA]'), (0, '{"A"A}'), (1, '{xAA,y"A"}'), (1, '{xd,yAAA}'), (2, '[AAA]'), (2, '[ddd,A]'))]
        js += [Job('json_write', [k, n]) for k in range(3) for n in (3,)]
        js += [Job('json_read', [2, c, b]) for c in (1, 3) for b in (0, 1, 2, 3, 4, 6, 7)]
    return js


def c16(t):
    js = []
    maps = [(), (90, 0, 0), (90, 1, 1), (90, 1, 0), (90, 2, 21), (91, 1, 2), (90, 3, 111), (1, 1, 1), (0, 1, 1), (90, 2, 10), (90, 2, 1), (90, 40, 1), (90, 300, 21), (91, 20, 0), (93, 1, 1), (90, 1, 9), (91, 1, 9), (90, 2, 91), (90, 2, 19)]
    two = [((90, 1, 2), (91, 1, 2)), ((90, 2, 12), (91, 1, 0)), ((90, 1, 1), (91, 0, 0)), ((90, 1, 0), (91, 2, 11)), ((1, 1, 1), (91, 1, 1)), ((92, 2, 11), (90, 1, 1)), ((2, 1, 1), (1, 0, 0))]
    for typ in range(22):
        for m in maps:
            js.append(Job('cow_map', [typ, 1 if m else 0] + (list(m) + [0] if m else [])))
        for a, b in two:
            js.append(Job('cow_map', [typ, 2] + list(a) + [0] + list(b) + [0]))
        if t:
            for m in [(90, 1, 3), (90, 1, 4), (90, 2, 33), (90, 3, 212), (91, 3, 121), (3, 1, 2)]:
                js.append(Job('cow_map', [typ, 1] + list(m) + [0]))
            for a in maps[1:]:
                for b in [(91, 1, 2), (91, 2, 11), (91, 0, 0), (92, 1, 1), (92, 2, 1)]:
                    if a[0] not in (0, b[0]):
                        js.append(Job('cow_map', [typ, 2] + list(a) + [0] + list(b) + [0]))
    return js


def c17(t):
    js = []
    for how in range(6):
        for d, v in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (2, 3)):
            k = dict(known=101) if how == 4 else {}
            js.append(Job('contain', [how, d, v, path('??????'), 0], **k))
    for how in (0, 1, 5):
        js.append(Job('contain', [how, 4, 4, path('??????'), 1]))
        js.append(Job('contain', [how, 4, 2, path('??????'), 1]))
        js += [Job('contain', [how, d, d, path(p), 0]) for d, p in ((0, '%??%??/??'), (4, '%??%?/?/??'), (1, '?%??/..'), (2, '\\??\\??/?'), (3, '????....'))]
        js += [Job('contain', [how, d, d, path(p), 0, n, m]) for d, p, n, m in ((0, '???', 13, 13), (2, '??', 14, 15), (4, '..?', 30, 30), (3, '??', 200, 199), (0, '/??', 0, 3))]
    if t:
        for how in range(6):
            for d, v in ((0, 0), (1, 1), (2, 2), (3, 3)):
                k = dict(known=101) if how == 4 else {}
                js.append(Job('contain', [how, d, v, path('????????'), 0], secs=1500, **k))
        js += [Job('contain', [0, 4, 4, path('???????'), 1], secs=1500)]
    return js


def c18(t):
    js = []
    for how in range(6):
        k = dict(known=103) if how in (2, 3, 4) else {}
        for d in range(5):
            for v in range(5):
                if t or v == (d + how) % 5 or v == (2 * d + 1) % 5:
                    js.append(Job('static', [how, d, v, path('...'), 3, 0, 0], **k))
        js += [Job('static', [how, 3, 1, path('../..'), 4, 0, 0], **k), Job('static', [how, 0, 0, path('.~.'), 0, 0, 0], **k), Job('static', [how, 2, 4, path('..'), 4, 1, 0], **k), Job('static', [how, 1, 2, path('..'), 4, 0, 1], **k)]
    js += [Job('static', [0, 0, 0, path('?????'), 4, 0, 0]), Job('static', [1, 2, 0, path('./..'), 20, 0, 0])]
    js += [Job('build_file', [n, c]) for n in (1, 2, 3) for c in (0, 1, 5)] + [Job('static', [how, 1, 2, path('.'), 2, 0, 0, 0, n]) for how in (0, 1, 5) for n in (1, 4, 30, 60)] + [Job('static', [how, d, d, path(p), 2, 0, 0, 0, 0, 1]) for how in (0, 1, 5) for d, p in ((0, '.'), (3, '.~.'))]
    js += [Job('static', [how, d, d, path(p), n, 0, 0]) for how in (0, 1, 5) for d, p, n in ((0, 'zdzzzz', 3), (1, 'zdzzz', 4), (2, 'zdzz', 2), (3, 'dzzzz', 1), (4, 'zdz', 5), (2, 'zzzzz', 1))] + [Job('build_file', [6, 2]), Job('build_file', [9, 3])]
    js += [Job('build_file', [1, 70000]), Job('static', [0, 1, 1, path('.'), 70000, 0, 0])]
    js += [Job('build_file', [1, n]) for n in (40, 300, 9000)] + [Job('static', [how, d, d, path('..'), n, 0, 0, b]) for how in (0, 1, 5) for d, n, b in ((0, 300, 0), (1, 9000, 0), (2, 2, 1), (3, 2, 2))]
    js += [Job('static', [how, d, d, path(p), 2, 0, 0]) for how in (0, 1, 5) for d, p in ((0, '%??'), (4, '?\\?/.'), (1, '%??/%??'))]
    if t:
        js += [Job('static', [how, d, v, path('??????'), 8, 0, 0], secs=1500) for how in (0, 1, 5) for d, v in ((0, 0), (1, 2), (2, 1), (3, 4))]
        js += [Job('build_file', [n, c]) for n in (4, 5) for c in (2, 200)]
    return js


def c19(t):
    return [Job('responder', [k, n]) for k in range(24) for n in ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20) if t else (0, 1, 2, 3, 4, 5, 6, 7, 9, 12)) if not (k == 6 and n > 3)] + [Job('responder', [k, n, n // 300 % 3]) for k in range(24) for n in (300, 900, 70000) if k != 6 or n < 600] + [Job('responder', [k, 1, b]) for k in range(24) for b in (1, 2)]


def c20(t):
    js = [Job('together', [a, b, 1 + (a + b) % 2, 1]) for a in range(12) for b in range(12)] + [Job('together', [a, b, 1, 0]) for a in (1, 6, 8) for b in (1, 2, 4, 6, 7, 8)]
    js += [Job('many_together', p) for p in ((5, 1), (12, 3), (24, 2), (40, 1, 1), (70, 3, 1))]
    js += [Job('concurrent', p) for p in ((1, 1, 1), (2, 0, 1), (2, 1, 1), (2, 2, 2), (2, 1, 2), (2, 3, 1), (3, 0, 2))]
    if t:
        js += [Job('concurrent', p, secs=3000) for p in ((2, 5, 1), (3, 0, 1), (3, 0, 3), (3, 1, 1), (3, 1, 2), (4, 0, 2))]
    return js


def c21(t):
    js = [Job('logger', [h, path(p), n, w]) for h in range(14) for p in ('/a', '/b/z', '/b/...', '/~~~~', '/b//.') for n, w in ((1, 0), (2, 1 + h % 3))]
    js += [Job('logger', [h, path('/b/z'), n, w]) for h in (0, 1, 7, 9) for n in (0, 300, 3000) for w in range(4)]
    js += [Job('logger', [h, path(p), 1, w, 1]) for h in range(14) for p, w in (('/a', 0), ('/b/z', 1 + h % 3), ('/b/z', 0))]
    js += [Job('logger', [h, path(p), 1, w, l, n, m]) for h in (14, 15) for p in ('/a', '/b/z') for w, l, n, m in ((0, 0, 0, 0), (3, 0, 0, 0))]
    js += [Job('logger', [h, path('/b/z'), 1, w, l, n, m]) for h in (0, 1, 4, 11) for w, l, n, m in ((0, 0, 300, 0), (2, 0, 9000, 0), (1, 1, 2000, 0), (0, 0, 0, 100), (3, 0, 0, 300))]
    js += [Job('logger', [h, path('/~~~~~~'), 1, w]) for h in range(16) for w in range(4)] if t else []
    return js


AGAIN = ['G 1; P 1; G *', 'G 1p; P 2p; M 1', 'G p1; P p1; G p', '[ 1; G p; H; ]; P 21', 'G ; P *; M *', 'M 1; G 11; P 1; G 1*']


def c22(t):
    js = [Job('context', [n, w, 99, 0]) for n in (1, 2, 3) for w in (0, 1)] + [Job('context', [2, w, 99, 1]) for w in (0, 1)]
    js += [Job('context', [2, w, 99, c, b]) for w in (0, 1) for c, b in ((0, 1), (0, 2), (1, 2))]
    js += [Job('context', [n, w, f, 0, 0, j, 1]) for n, w, f in ((1, 0, 99), (1, 1, 99), (2, 0, 9), (2, 1, 9), (2, 0, 8), (2, 1, 7)) for j in (0, 1)] + [Job('context', [2, w, 9, 1, 0, 1]) for w in (0, 1)]
    js += [Job('context', [4, w, f, 0]) for w in (0, 1) for f in (range(19) if t else ())]
    if t:
        js += [Job('context', [5, w, f, 0], secs=2500) for w in (0, 1) for f in range(19)]
    return js


def c23(t):
    js = [Job('history', [1, c, f]) for c in (1, 2) for f in range(12)] + [Job('history', [2, 1, f]) for f in range(12)]
    js += [Job('many_requests', p) for p in ((20, 1), (130, 2), (60, 7))] + [Job('many_requests', [1100, 1], steps=100000000)]
    for pr in AGAIN:
        js += [Job('again', [path(a), path(b)] + prog(pr), pr) for a, b in ((('~~', '~~'), ('~', '~~~')) if len(pr) >= 20 else (('~~~', '~~~'), ('~', '~~~~')))]
    js += [Job('again', [path(a), path(b)] + prog(pr) + [n], pr) for pr in AGAIN[1:5] for a, b, n in (('~', '~', 3), ('~', '', 8), ('~', '~~', 40))]
    if t:
        js += [Job('history', [3, 1, f], secs=2500) for f in range(12)] + [Job('history', [2, 2, f], secs=2500) for f in range(12)]
        js += [Job('again', [path('~~~~'), path('~~~~')] + prog(pr), pr, secs=2500) for pr in AGAIN]
    return js


COPIES = [('H; G 1', 'H; H; G 2'), ('M 1; G 11', 'M 1; M 1; G 12; H'), ('G 1; M 1', 'G 2; M 1'), ('G 1p; M 1', 'P 1p; M 1p'), ('G 11; G 2*', 'G 1; G 12'), ('M 1; H', 'G 1; G 1*; H'), ('', 'G ; G 1; H'), ('G p; G p1', 'D p; M p; P p2'),
          ('[ 1; G 1; H; ]', 'M 11; G 2; P 1'), ('G *; G ', 'G 2; P ; M 2*'), ('G 1', '[ 2; G 1; G ; H; ]'), ('G 1; P 2', 'G 2; P 1'), ('H; G 11', 'H; M 1; M 11'), ('M a; G B', 'G a; G aB; M B')]


def c24(t):
    js = [Job('copy', [path(p), prog(a)[0], how] + prog(a + '; ' + b if a else b), '[%s | %s] %d' % (a, b, how))
          for a, b in COPIES for how, p in ((0, '????'), (1, '???'), (2, '??'), (3, '???'), (4, '~~'))]
    if t:
        js += [Job('copy', [path('?????'), prog(a)[0], how] + prog(a + '; ' + b if a else b), '[%s | %s] %d' % (a, b, how)) for a, b in COPIES for how in range(5)]
    return js


def c25(t):
    js = [Job('abandon', [1, c, f, 99, l]) for c, l in ((1, 0), (2, 1)) for f in range(12)]
    js += [Job('abandon', [1, 1 + f % 2, f, o, 0]) for f in range(12) for o in (1, 2, 6, 8)]
    js += [Job('abandon', [2, 1, f, 99, 0]) for f in (1, 2, 6, 7)]
    js += [Job('abandon', [n, c, f, o, 0]) for n, c, f, o in ((70, 1, 6, 99), (70, 2, 2, 99), (70, 1, 8, 6), (70, 3, 1, 99), (20, 1, 2, 2), (300, 1, 2, 99))]
    if t:
        js += [Job('abandon', [2, 1, f, o, 0], secs=2500) for f in range(12) for o in (99, 2, 6)]
    return js


JOBS = dict(C24=c24, C25=c25, C22=c22, C23=c23, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18,
            C19=c19, C20=c20, C21=c21)


def jobs(pid, tier):
    seen, res = set(), []
    for j in JOBS[pid](tier == 'thorough'):
        if j.key() not in seen:
            seen.add(j.key())
            res.append(j)
    f = os.path.join(HERE, 'covers.json')
    rec = json.load(open(f)) if os.path.exists(f) else {}
    for j in res:
        j.covers = rec.get(j.key())
    return res


BOUNDS = {
    'C01': 'route tables of 1 to 5 registrations over literal segments of 1-3 arbitrary bytes (and one- and two-byte characters), parameters, wildcards, nested mounts and middlewares; request paths of up to 7 (quick) / 8 (thorough) arbitrary ASCII bytes or 2- and 3-byte characters; 9 standard methods, one extension method and 44 names near to methods; quick: every pair over 18 pattern shapes and every triple over 10, thorough: every triple over 18. 9 tables as applications have them (up to 34 registrations, 18 segments, 11 parameters, names of up to 260 bytes, several languages), with every request whose path matches a registration or differs from that by one arbitrary byte, one byte more, its length, or two bytes more. Through the service of a listening app: paths of up to 6 letters and slashes, every method, 3 sets of about 26 request headers and queries that servers are known to act on. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more; 48 words that servers know (extensions, escapes, dots, matrix parameters, and more) behind, before and around paths of up to 2 letters and slashes',
    'C02': 'patterns with 1-3 parameters beside literals, wildcards and in mounted routers; request paths of up to 7/9 arbitrary bytes; 9 tables as applications have them (up to 34 registrations, 18 segments, 11 parameters, names of up to 260 bytes, several languages), with every request whose path matches a registration or differs from that by one arbitrary byte, one byte more, its length, or two bytes more; texts of 1-5 arbitrary bytes, a text of 300 bytes, and numbers of up to 23 digits around the bounds of u8, i8, i32, i64, u64, read as String, u8, i8, i32, i64, u64, bool. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more; 48 words that servers know (extensions, escapes, dots, matrix parameters, and more) behind, before and around paths of up to 2 letters and slashes',
    'C03': 'up to 4 registrations (routes of 5 methods, middlewares, mounts) with literal segments of 1-3 arbitrary bytes, the last one in 4 spellings; and every pattern text of up to 6/8 arbitrary ASCII bytes; every pair of texts with up to 6 (thorough 8) arbitrary bytes behind one of 6 beginnings, as route, middleware or mount; and after each of 9 tables as applications have them (up to 34 registrations) one more, with a text of the table, one arbitrary byte changed or added, or cut off',
    'C04': 'tables of 2-6 registrations with literal segments of 1-3 arbitrary bytes, in the given and the reverse order; request paths of up to 5/7 arbitrary bytes; thorough: every triple over 17 pattern shapes; 9 tables as applications have them (up to 34 registrations, 18 segments, 11 parameters, names of up to 260 bytes, several languages), with every request whose path matches a registration or differs from that by one arbitrary byte, one byte more, its length, or two bytes more. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more',
    'C05': 'mounts up to 3 deep of routers with up to 5 registrations, prefixes of 1-2 segments (literals of 1-3 arbitrary bytes, parameters); request paths of up to 6/7 arbitrary bytes; 8 tables of up to 34 registrations mounted at /:tenant/v1, with every request whose path matches a registration but for one byte; routers that share registrations with a copy; scopes with arbitrary names and up to 30 mounts on one router. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more',
    'C06': 'request paths of up to 8/10 arbitrary bytes against 8 tables; 20, 300 and 1000 slashes in a row anywhere in paths of up to 4 arbitrary bytes; registered texts of up to 6/7 arbitrary bytes for routes, middlewares and mounts',
    'C07': 'tables of up to 6 registrations with up to 4 middlewares at arbitrary paths, mounted or not; literal segments of 1-3 arbitrary bytes; request paths of up to 6/7 arbitrary bytes; 9 tables as applications have them (up to 34 registrations, 18 segments, 11 parameters, names of up to 260 bytes, several languages), with every request whose path matches a registration or differs from that by one arbitrary byte, one byte more, its length, or two bytes more. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more; 48 words that servers know (extensions, escapes, dots, matrix parameters, and more) behind, before and around paths of up to 2 letters and slashes',
    'C08': 'chains of 0-3 (thorough 5) middlewares of 10 behaviours each (pass, answer, fail, replace, recover, drop, wait, answer and pass, fail after the answer, and trying again), errors of 5 kinds, and 5 endpoint behaviours, registered in 3 ways; chains of 12-40 middlewares of which two have any behaviour',
    'C09': 'tables of up to 6 registrations with up to 4 middlewares; literal segments of 1-3 arbitrary bytes; request paths of up to 6/7 arbitrary bytes; 9 tables as applications have them (up to 34 registrations, 18 segments, 11 parameters, names of up to 260 bytes, several languages), with every request whose path matches a registration or differs from that by one arbitrary byte, one byte more, its length, or two bytes more. Tables of scale: paths of up to 130 segments, 70 parameters (with texts of up to 5000 bytes), 300 siblings (with a common beginning, or each with a first character of its own), 140 middlewares, names of 1 to 26 bytes each and of 8000, with a request that matches but for one arbitrary byte or one byte more',
    'C10': '9 standard methods and one extension method, every HTTP version, 3 sets of other request headers, request paths of up to 5/6 arbitrary characters against an app with 6 endpoints; error texts of up to 4/5 arbitrary characters, and of 80, 300 and 5000 of which 4 are arbitrary, in 5 kinds of error (those of the JSON reader among them), from endpoint or middleware',
    'C11': 'every status from 100 to 999, bodies of up to 30/40 arbitrary characters and of up to 10000 of which 4 are arbitrary, up to 4 headers with values of up to 12 arbitrary bytes (300 with 4 arbitrary ones), 5 interfaces, every HTTP version, 3 sets of request headers; sequences of up to 3 of 15 operations on a response that starts in 8 ways, and of up to 2 of 6 operations on its builder; 120 headers of which one is arbitrary; each of the header names that HTTP defines or servers know, through 3 interfaces',
    'C12': '1-3 (thorough 4) requests over two connections in arbitrary order, with state, query, header and body of up to 8 arbitrary bytes each (up to 9000 bytes of which 4 are arbitrary), 3 methods, every HTTP version, 3 sets of other headers; one request with 70000 bytes of body and a long query; state set first, twice or last; each of the header names that HTTP defines or servers know, on its own, and repeated; the same to each of the tables of scale of C01, with state and a middleware that waits',
    'C13': '22 target types; bodies and query texts of 0-13 bytes from 14 templates with up to 4 arbitrary bytes (all separators, escapes and values), numbers of up to 20 digits around the bounds of the types, a value of 300 bytes, up to 300 other fields and 2000 other values, 3 sets of request headers, queries of relative and absolute URIs; 40 texts around names and 56 values that other readers treat as special',
    'C14': 'form and JSON bodies of 0-11 bytes (up to 3 arbitrary) cut at every place into 1-3 (thorough 5) chunks, empty ones included, each after a wait or not, with a failure before any chunk or none; the same after 300 to 70000 bytes without a meaning, cut at the ends and in the middle; the first 100 to 1100 bytes in a chunk each; a JSON body (thorough: also a form) of 1.1 million bytes',
    'C15': 'JSON texts of up to 40 bytes with up to 4 arbitrary ones against the JSON reader itself and against the meaning of the digits; 9 kinds of target types; 32 kinds of values written; strings of up to 2/3 arbitrary characters, and of up to 5000 of which 4 are arbitrary, and numbers written back; 44 texts near to JSON that some readers accept',
    'C16': '22 target types; maps of 0-2 names (arbitrary names of up to 3 bytes) with 0-3 values of 0-4 arbitrary bytes; texts that mean something to other encodings',
    'C17': '5 directories, 5 virtual paths, 6 ways of registration; request paths of up to 6/8 arbitrary bytes below the route, or anywhere, and of up to 10 with percent signs, backslashes and dots at given places; below up to 200 directories and as many ".."',
    'C18': '5 directories, 5 virtual paths, 6 ways of registration; names of 1-6 arbitrary characters in one or more segments, contents of 0-40 (thorough 200) arbitrary bytes and of up to 9000 of which 4 are arbitrary, files absent or present, 3 sets of request headers',
    'C19': '24 kinds of responders (content types that replace others among them), every status from 100 to 999, texts of up to 3/12 (thorough 20) arbitrary characters and of up to 9000 of which 4 are arbitrary, 3 sets of request headers',
    'C20': '1-3 (thorough 4) requests in flight over 1-3 connections, 2-6 waits each, polled in every order, with an arbitrary body byte or none; up to 70 requests in flight of which one is arbitrary; every pair of 12 kinds of requests to an app with 9 endpoints, mounted routers and middlewares, polled in every order, the bodies at once or after a wait',
    'C22': 'histories of 1-4 (thorough 5) of 19 operations on one context, and spread over two middlewares and the handler that treat one request; all values arbitrary bytes; bodies in one piece or two, forms or JSON; data of 18 common types beside, which replace others, and of types without a size or with 800 bytes',
    'C23': 'sequences of 2-3 (thorough 4) of 12 kinds of requests with arbitrary bytes, over one or two connections; pairs of requests with paths of 1-4 arbitrary letters of both cases and slashes and 3 methods to 6 route tables, also below 3, 8 or 40 other segments; sequences of up to 1100 requests before an arbitrary one',
    'C24': '14 programs of 0-3 registrations before the copy and 1-4 after it (routes, middlewares, mounts; literal segments of 1-2 arbitrary bytes), on either side, after a mount, by clone_from, and with both mounted; request paths of up to 4 (thorough 5) arbitrary bytes, 2 methods',
    'C25': '1-2 requests (thorough 2 beside another one) of 12 kinds abandoned after 0-5 polls, beside a request of 4 kinds in flight or none, before a request of any of 12 kinds, over 1-2 connections, with and without the logger; 20, 70 and 300 abandoned requests of one kind over 1-3 connections',
    'C21': '16 endpoint behaviours, every status,, 2 methods, every HTTP version, request paths of up to 5/7 arbitrary characters, texts of 0-2 arbitrary bytes (up to 3000 with 4 arbitrary ones), the logger of App::default, of use_service, of a router, or two of them; paths of up to 9000 bytes, up to 300 other headers',
}
COMMON = [
    'The IR executed is what rustc -O0-like codegen (see build_ir.sh) makes of /repo and its dependencies; the optimiser and code generator behind it are trusted, as are the models of the external functions listed in engine/src/exec.rs (allocation, memcpy and friends, thread-locals, files)',
    'Hash tables are iterated in the order of a fixed hash seed per instance; sampled paths are run natively with random seeds',
    'Inputs longer than the bounds are outside; the z3 solver is trusted',
]
EXTRA = {
    'C01': ['prefixes of mounts end in no wildcard, and a pattern has no two parameters of one name'],
    'C05': ['prefixes of mounts end in no wildcard'],
    'C10': ['the connection layer of hyper is outside: requests are handed to the service App::listen builds, through the cfg(obsidian_verif) hook'],
    'C12': ['the connection layer of hyper is outside: requests are handed to the service App::listen builds, through the cfg(obsidian_verif) hook'],
    'C13': ['floating point and char fields are outside'],
    'C16': ['floating point and char fields are outside'],
    'C17': ['files are a model: symbolic links are outside; percent-encoded dots are not decoded by the crate and count as plain names'],
    'C18': ['files are a model: symbolic links and directories are outside'],
    'C22': [],
    'C24': ['prefixes of mounts end in no wildcard'],
    'C25': ['a client that goes away is the future of its request dropped, as hyper does', 'the connection layer of hyper is outside: requests are handed to the service App::listen builds, through the cfg(obsidian_verif) hook'],
    'C23': ['handlers and middlewares that keep state of their own are outside', 'the connection layer of hyper is outside: requests are handed to the service App::listen builds, through the cfg(obsidian_verif) hook'],
    'C20': ['requests are polled by one thread; data races are excluded by the type system (no unsafe code in the crate)'],
}


def bounds(pid, tier):
    return BOUNDS[pid]


def assumptions(pid):
    return COMMON + EXTRA.get(pid, [])
