#!/usr/bin/env python3
"""mkdemo.py REPLAY.json SEEDED_DIR: turns the trace of an exec-world replay into a demo script (maintainer tool; no check uses it)."""
import json, os, re, shutil, sys
rep, d = sys.argv[1:3]
t = json.load(open(rep))['trace']
here = os.path.dirname(os.path.abspath(__file__))
out, pend, last, res, now = [], [], {}, None, 1.0
stepat = None
for l in t:
    l = l.strip('\n')
    m = re.match(r'lookupNow (\S+) -> (.*)$', l)
    if m:
        v = m.group(2)
        if v == '(none)': v = 'none'
        pend.append(f'ans {m.group(1)} {v}'); continue
    m = re.match(r'state (\S+) = (.*?)( \(.*\))?$', l)
    ext = None
    if m and m.group(3) != ' (within thresholds)': ext = f'state {m.group(1)} {m.group(2)}'
    elif re.match(r'(handle|value|abortack|updateack) /', l): ext = l
    elif l.startswith('deleteFinishedPlans'): ext = 'purge'
    elif l.startswith('step '): ext = 'step ' + l.split()[1]; now = float(l.split()[1])
    elif re.match(r'(plan|library) <', l): ext = l
    elif l.startswith('resources '): res = l[len('resources '):].replace('\\n', '\n'); continue
    if ext is None: continue
    if stepat is not None: out[stepat:stepat] = pend
    elif pend: out.extend(pend)
    pend, stepat = [], None
    if ext.startswith('step '): stepat = len(out)
    out.append(ext)
if stepat is not None: out[stepat:stepat] = pend
out += [f'step {now+1}', f'step {now+2}']
os.makedirs(d, exist_ok=True)
open(d + '/script.txt', 'w').write('\n'.join(out) + '\n')
if res: open(d + '/resources.txt', 'w').write(res)
for f in ('drv.cc', 'demo.sh'): shutil.copy(f'{here}/{f}', d)
os.system(f'touch {d}/expected.txt; DEMO_OUT={d}/expected.txt bash {d}/demo.sh > /dev/null')
