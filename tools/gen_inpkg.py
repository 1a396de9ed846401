#!/usr/bin/env python3
"""Derives the helpers of the in-package harness from those of props/, with
prefixed names so that they cannot clash with names of the library."""
import os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ['stats', 'st', 'seen', 'failed', 'progress', 'active', 'current', 'hangSeconds', 'raceMode', 'writeJSON', 'watchdog', 'Case', 'run', 'newCase', 'pick', 'short',
         'flip', 'mangle', 'mutate', 'oddInt', 'oddLength', 'oddBytes', 'lax', 'coder', 'strict', 'spelling']


def rename(s):
    for n in NAMES:
        s = re.sub(r'(?<![\w."])%s\b(?!:)(?! for %%d)' % n, 'vf' + n[0].upper() + n[1:], s)
    return s


def func(src, name):
    m = re.search(r'(?ms)^((?://[^\n]*\n)*(?:func|type) (?:\(c \*Case\) )?%s\b.*?(?:^\}|interface\{[^\n]*\})$)' % name, src)
    return m.group(1)


s = open(H + '/props/harness_test.go').read().replace('package props', 'package mls')
open(H + '/inpkg/vf_harness_test.go', 'w').write(rename(s))

src = ''.join(open(H + '/props/%s_test.go' % n).read() for n in ('c05', 'c07', 'c08'))
out = 'package mls\n\nimport (\n\t"bytes"\n\t"slices"\n\n\tref "mlsref"\n)\n'
for n in ('flip', 'mangle', 'mutate', 'oddInt', 'oddLength', 'oddBytes', 'lax', 'coder', 'strict', 'spelling', 'payload', 'anyLeaf', 'anyExts', 'anyKeyPackage', 'anyWelcome', 'verdict'):
    out += '\n' + func(src, n) + '\n'
open(H + '/inpkg/vf_gen_test.go', 'w').write(rename(out))
