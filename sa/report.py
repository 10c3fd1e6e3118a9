import os


class Finding:
    def __init__(self, key, where, rule, msg, detail=''):
        self.key = key          # stable identity
        self.where = where      # file:line / function
        self.rule = rule
        self.msg = msg
        self.detail = detail

    def text(self):
        return '%s: [%s] %s%s' % (self.where, self.rule, self.msg, '\n    ' + self.detail if self.detail else '')


class Report:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.explanation = ''
        self._seen = set()

    def add(self, f):
        k = (f.where, f.rule, f.msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.findings.append(f)

    def count(self, k, n=1):
        self.coverage[k] = self.coverage.get(k, 0) + n

    def note(self, k, v):
        self.coverage[k] = v


def rel(path):
    i = path.find('/src/')
    return path[i + 1:] if i >= 0 else path
