#!/usr/bin/env python3
"""Writes sim/pipeline/corpus.cc: the blueprints of the repository's fixtures (the small ones),
as material for generated documents.  Committed, so that a seed means the same document whatever
happens to the fixtures."""
import os, subprocess, sys

repo = os.environ.get('VERIF_REPO', '/repo')
here = os.path.dirname(os.path.abspath(__file__))
seen = set()
docs = []
for root, _, files in sorted(os.walk(os.path.join(repo, 'packages', 'drafter', 'test', 'fixtures'))):
    for f in sorted(files):
        if not f.endswith('.apib'):
            continue
        t = open(os.path.join(root, f), 'rb').read()
        if len(t) > 6000 or t in seen:
            continue
        seen.add(t)
        docs.append((os.path.relpath(os.path.join(root, f), repo), t))

def lit(b):
    s = ''
    for c in b:
        ch = chr(c)
        if ch in '"\\':
            s += '\\' + ch
        elif 32 <= c < 127 and ch != '?':
            s += ch
        else:
            s += '\\%03o' % c
    return '"' + s + '"'

with open(os.path.join(here, '..', 'sim', 'pipeline', 'corpus.cc'), 'w') as o:
    o.write('// Generated by tools/corpus.py from the fixtures of the repository (MIT, Apiary Inc.); do not edit.\n')
    o.write('#include "doc.h"\n\n// clang-format off\nnamespace\n{\n')
    for i, (n, t) in enumerate(docs):
        o.write('    // %s\n    const char* const d%d[] = {\n' % (n, i))
        for l in t.replace(b'\r\n', b'\n').rstrip(b'\n').split(b'\n'):
            o.write('        %s,\n' % lit(l.replace(b'\0', b' ')))
        o.write('        nullptr };\n')
    o.write('}\n\nconst char* const* const corpus[] = {')
    for i in range(len(docs)):
        o.write(' d%d,' % i)
    o.write(' };\nconst std::size_t corpus_count = %d;\n' % len(docs))
print(len(docs), sum(len(t) for _, t in docs))
