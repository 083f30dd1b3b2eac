#!/usr/bin/env python3
"""Writes DESIGN.md from the hand-written text in tools/design_text.py, the rules of the checks, known_findings.txt and seeded/*/meta.json.
Run by hand; the output is committed."""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import design_text as T

props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))}
out = [T.INTRO.strip(), '', '## Properties', '']
kf = [l.strip() for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.startswith(('open:', 'fixed:'))]
for pid, p in props.items():
    ck = importlib.import_module('checks.' + pid.lower()).CHECK
    src = open(os.path.join(ROOT, 'checks', pid.lower() + '.py')).read()
    secs = re.findall(r"@CHECK\.section\('([^']+)',\s*quick=(\d+),\s*thorough=(\d+)", src)
    out += [f'### {pid} – {p["title"]}', '', f'*Quantified over:* {p["quantifier"]["text"]}.', '', f'*Why tests cannot settle it:* {p["why_tests_cant"]}', '',
            '*How it is decided:* ' + ck.rule, '']
    if pid in T.HOW:
        out += [T.HOW[pid].strip(), '']
    out += ['*Sections (quick / thorough cases, each in the stated precisions):* ' + ', '.join(f'{s} {q}/{t}' for s, q, t in secs) + '.', '']
    if ck.assumptions:
        out += ['*Domain and assumptions:* ' + '; '.join(ck.assumptions) + '.', '']
    if pid in T.NOTES:
        out += ['*Not judged, false alarms corrected, remarks:* ' + T.NOTES[pid].strip(), '']
    mine = [l for l in kf if f'property={pid} ' in l]
    n_open = [l for l in mine if l.startswith('open:')]
    fixed = [l for l in mine if l.startswith('fixed:')]
    if n_open:
        out += ['*Known findings (genuine, not repaired):*', ''] + ['- ' + re.sub(r'^open: property=\S+ ', '', l) for l in n_open] + ['']
    if fixed:
        out += [f'*Defects found and repaired ({len(fixed)}):*', ''] + ['- ' + re.sub(r'^fixed: property=\S+ ', '', l) for l in fixed] + ['']
out += [T.BUGS.strip(), '', '| id | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    out.append(f'| {os.path.basename(os.path.dirname(m))} | {d["property"]} | {d["needs"]} | {d.get("caught_by", "quick check of " + d["property"])} |')
out += ['', T.OUTRO.strip(), '']
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
