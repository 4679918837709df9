#!/usr/bin/env python3
"""Collects the numbers and the short texts that appear in the source of the library, as hints for the workloads.

Usage: mine.py SRC_DIR OUT"""
import os, re, sys


def without_tests(s):
    """The source without its test modules."""
    out, i = [], 0
    for m in re.finditer(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{', s):
        if m.start() < i:
            continue
        out.append(s[i:m.start()])
        depth, j = 1, m.end()
        while j < len(s) and depth:
            c = s[j]
            if c == '{':
                depth += 1
            elif c == '}':
                depth -= 1
            elif c == '"':
                j += 1
                while j < len(s) and s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
            elif c == "'" and re.match(r"'(\\.|[^\\'])'", s[j:]):
                j += re.match(r"'(\\.|[^\\'])'", s[j:]).end() - 1
            j += 1
        i = j
    out.append(s[i:])
    return ''.join(out)


ESC = {'n': 10, 'r': 13, 't': 9, '0': 0, '\\': 92, '"': 34, "'": 39}


def unescape(t):
    out, i = bytearray(), 0
    while i < len(t):
        c = t[i]
        if c == '\\' and i + 1 < len(t):
            n = t[i + 1]
            if n == 'x':
                try:
                    out.append(int(t[i + 2:i + 4], 16))
                except ValueError:
                    pass
                i += 4
                continue
            if n == '\n':
                i += 2
                while i < len(t) and t[i].isspace():
                    i += 1
                continue
            if n in ESC:
                out.append(ESC[n])
            i += 2
            continue
        out += c.encode('utf8')
        i += 1
    return bytes(out)


def mine(src):
    numbers, words = set(), set()
    for root, _, files in sorted(os.walk(src)):
        for f in sorted(files):
            if not f.endswith('.rs'):
                continue
            s = without_tests(open(os.path.join(root, f), encoding='utf8', errors='replace').read())
            s = re.sub(r'//[^\n]*', '', s)
            for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', s, re.S):
                w = unescape(m.group(1))
                if 0 < len(w) <= 24:
                    words.add(w)
            for m in re.finditer(r"b?'((?:[^'\\]|\\x..|\\.))'", s):
                w = unescape(m.group(1))
                if w:
                    words.add(w)
            t = re.sub(r'b?"((?:[^"\\]|\\.)*)"', ' ', s, flags=re.S)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|i8|i16|i32|i64|isize)?\b", t):
                try:
                    n = int(m.group(1).replace('_', ''), 0)
                except ValueError:
                    continue
                if 0 < n < 1 << 20:
                    numbers.add(n)
            for m in re.finditer(r"(?<![\w.])(\d+)(?:usize|u32|u64)?\s*(<<|\*)\s*(\d+)\b", t):
                a, o, b = int(m.group(1)), m.group(2), int(m.group(3))
                n = a << b if o == '<<' and b < 20 else a * b if o == '*' else 0
                if 0 < n < 1 << 20:
                    numbers.add(n)
    return sorted(numbers), sorted(words)


if __name__ == '__main__':
    n, w = mine(sys.argv[1])
    # what is not in the source that the harness was written for comes first: it is where the behaviour may have changed
    known = set()
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.dict')
    if os.path.exists(base) and len(sys.argv) < 4:
        known = set(open(base).read().split('\n'))
    lines = [f'n {x}' for x in n] + [f'w {x.hex()}' for x in w]
    new = [x for x in lines if x not in known]
    with open(sys.argv[2], 'w') as f:
        for x in new * 12 if known else []:
            f.write(x + '\n')
        for x in lines:
            f.write(x + '\n')
