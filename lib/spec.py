"""Readable job descriptions -> numeric harness parameters."""
PATH = {'?': 1, 'é': 2, '/': 3, '.': 4, '€': 5, '~': 6, 'z': 7, '9': 9, 'A': 8, 'a': 10, 'b': 11, 'c': 12, 'd': 13, '%': 14, '\\': 15}
SEG = {'1': 1, '2': 2, '3': 3, '4': 4, 'p': 5, 'q': 6, 'r': 14, '*': 7, 'A': 8, '9': 9,
       'a': 10, 'B': 11, 'C': 12, 'b': 13, 'f': 15}
KIND = {'G': 0, 'P': 1, 'U': 2, 'T': 3, 'D': 4, 'M': 10, 'H': 11, '[': 20, ']': 21}


def path(s):
    assert len(s) <= 15, s
    return sum(PATH[c] << (4 * i) for i, c in enumerate(s))


def shape(s):
    assert len(s) <= 15
    return sum(SEG[c] << (4 * i) for i, c in enumerate(s))


def prog(s):
    """'G 1p; M a; H; [ a; G *; ]' -> [count, kind, shape, ...]"""
    out = []
    ops = [o.strip() for o in s.split(';') if o.strip()]
    for o in ops:
        w = o.split()
        out += [KIND[w[0]], shape(w[1]) if len(w) > 1 else 0]
    return [len(ops)] + out


FT = {'?': 1, 'A': 2, '&': 3, '=': 4, '%': 5, '+': 6, 'd': 7, '.': 8, 'h': 9, '-': 13, '1': 14, 'a': 10, 'b': 11, 'c': 12, 'f': 15}
JT = {'?': 1, 'A': 2, '{': 3, '}': 4, '[': 5, ']': 6, 'd': 7, '"': 8, ':': 9, ',': 10, 'b': 11, 'x': 12, 'y': 13, 't': 14, 'f': 15}
# beginnings of numbers, as in param.rs
BEGIN = ['', '1', '25', '12', '-12', '000', '21474836', '-21474836', '42949672', '99999999', '18446744073709551',
         '92233720368547758', '-92233720368547758', '00000000000000000000', 'a long text']


def _two(v):
    assert len(v) <= 30
    return [sum(c << (4 * i) for i, c in enumerate(v[:15])), sum(c << (4 * i) for i, c in enumerate(v[15:]))]


def ft(s):
    """template of form data"""
    return _two([FT[c] for c in s])


def jt(s):
    """template of JSON text; x and y stand for "a": and "b":, t for true"""
    return _two([JT[c] for c in s])


class Job:
    def __init__(self, entry, params, note='', **opts):
        self.entry, self.params, self.note, self.opts = 'harness_' + entry, list(params), note, opts
        self.covers = []

    def describe(self):
        return '%s(%s)%s' % (self.entry, ','.join(map(str, self.params)), ' ' + self.note if self.note else '')

    def key(self):
        return '%s|%s' % (self.entry, ','.join(map(str, self.params)))

    def line(self):
        o = dict(sample=200, secs=240)
        o.update(self.opts)
        return '%s|%s|%s' % (self.entry, ','.join(map(str, self.params)), ';'.join('%s=%d' % kv for kv in o.items()))
