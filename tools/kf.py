#!/usr/bin/env python3
"""Maintains /verif/known_findings.json by hand-written entries (never run by a check)."""
import json, subprocess
F = '/verif/known_findings.json'
def fixed(prop, subject, what):
    c = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--fixed-strings', '--grep=' + subject], text=True).split()
    assert len(c) == 1, (subject, c)
    return f'fixed: property={prop} {c[0]} {what}'
SIGNED = ['i8', 'i16', 'i32', 'i64', 'i128']
from findings import FINDINGS, FIXED
json.dump({'findings': FINDINGS, 'fixed': [fixed(*f) for f in FIXED]}, open(F, 'w'), indent=1)
