"""Loader for the exported, type-checked program."""
import json
import re


def normq(q):
    """strip template arguments and inline namespaces from a qualified name"""
    if 'operator' in q:
        i = q.index('operator')
        # keep the operator symbol, strip arguments before it and after it
        head, tail = q[:i], q[i:]
        m = re.match(r'operator\s*(\(\)|\[\]|->\*?|<=>|<<=|>>=|<<|>>|<=|>=|<|>|[-+*/%^&|~!=,]+|[A-Za-z_].*)', tail)
        op = m.group(0) if m else tail
        return _strip(head) + op.replace('operator ', 'operator ')
    return _strip(q)


def _strip(q):
    q = q.replace('(anonymous namespace)::', '').replace('__cxx11::', '').replace('__1::', '').replace('_V2::', '').replace('(anonymous class)', 'lambda')
    out, d = [], 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    q = ''.join(out)
    q = re.sub(r'\([^()]*\)', '', q)
    return q


class IR:
    def __init__(self, path):
        d = json.load(open(path, encoding='utf-8', errors='replace'))
        self.types = d['types']
        self.records = d['records']
        self.functions = d['functions']
        self.vars = d['vars']
        self.enums = d['enums']
        self.files = d['files']
        for f in self.functions.values():
            f['qn'] = normq(f['q'])
        for r in self.records.values():
            if r:
                r['qn'] = _strip(r['q'])
        self.byname = {}
        for i, f in self.functions.items():
            if 'body' in f:
                self.byname.setdefault(f['qn'], []).append(i)

    def fn(self, i):
        return self.functions[str(i)]

    def rec(self, i):
        return self.records[str(i)]

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {'c': 'void', 's': 'void'}

    def loc(self, l):
        if not l:
            return '?'
        f = self.files[l[0]]
        return '%s:%d' % (f.rsplit('/', 1)[-1], l[1])

    def enumvals(self, en):
        return tuple(v for _, v in self.enums[str(en)]['e'])
