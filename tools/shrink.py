"""Shrink the text violations of a replay file: shrink.py REPLAY [COUNT]"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import core  # noqa
import texts  # noqa


def failing(check, jobs):
    """The jobs which fail."""
    got = []
    keep = texts.collect
    texts.collect = lambda c, n, bads, w: got.extend(bads)
    try:
        texts.validate(check, 'shrink', jobs, {'emphasis', 'html', 'slug'})
    finally:
        texts.collect = keep
    return got


def variants(s):
    n = len(s)
    out = []
    for w in (n // 2, n // 4, n // 8, 4, 2, 1):
        if w >= 1:
            out += [s[:k] + s[k + w:] for k in range(0, n, max(1, w // 2))]
    return sorted(set(out), key=len)


def main():
    found = json.load(open(sys.argv[1]))
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 10
    check = core.Check(found['property'], 'quick', 1)
    try:
        current = {}
        for k, v in enumerate(v['detail'] for v in found['violations'] if v['kind'] == 'text'):
            if k < count:
                current[k] = (v['function'], v['parser'], v['text'], None)
        active = set(current)
        while active:
            jobs = {}
            for k in active:
                f, parser, s, _ = current[k]
                for t in variants(s):
                    jobs.setdefault((f, parser, t), []).append(k)
            bads = sorted(failing(check, list(jobs)), key=lambda b: len(b['text']))
            moved = set()
            for b in bads:
                for k in jobs[b['function'], b['parser'], b['text']]:
                    if k in active and k not in moved:
                        moved.add(k)
                        current[k] = (b['function'], b['parser'], b['text'], b)
            active = moved
        for x in sorted({(c[0], c[2]): c for c in current.values()}.values(), key=lambda c: len(c[2])):
            b = x[3] or {}
            print(x[0], x[1], repr(x[2]), 'expected', repr(b.get('expected')), 'actual',
                  repr(b.get('actual')))
    finally:
        check.abort()


main()
