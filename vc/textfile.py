"""Contract of open() for files whose numbers are arbitrary.

A numeral in a file stands for a symbol: numeral(x) returns text that float()
(and numpy's conversion of text) turns into the symbolic number x."""
from .ex import to_ex

NUM = {}


def numeral(x):
    t = f'{9000000+len(NUM)}.5'
    NUM[t] = to_ex(x)
    return t


def integer(n):
    t = str(7000000+len(NUM))
    NUM[t] = to_ex(n)
    return t


def value(t):
    """symbol of a numeral, None for ordinary text"""
    return NUM.get(t.strip())


class File:
    def __init__(self, text):
        self.lines = text.splitlines(True)
        self.at = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def readlines(self):
        out = self.lines[self.at:]
        self.at = len(self.lines)
        return out

    def read(self):
        return ''.join(self.readlines())

    def readline(self):
        self.at += 1
        return self.lines[self.at-1] if self.at <= len(self.lines) else ''

    def __iter__(self):
        while self.at < len(self.lines):
            yield self.readline()


def opener(files):
    def open_(path, mode='r', *a, **k):
        if mode not in ('r', 'rt') or path not in files:
            raise FileNotFoundError(path)
        return File(files[path])
    return open_


def install(mod, files):
    mod.__dict__['__builtins__']['open'] = opener(files)
