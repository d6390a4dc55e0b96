#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for each property that has checks/<id>.py."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = 'asan+ubsan build of the real programs under generated workloads; '
T = {
    'C01': (MON + 'sanitizer, exit-status and progress monitor over hostile inputs, plus libFuzzer', 'exploration'),
    'C02': (MON + 'output compared with the written key/value lines', 'exploration'),
    'C03': (MON + 'content generated together with its documented HTML', 'exploration'),
    'C04': (MON + 'conservation monitor: uniquely numbered words, entities, raw blocks', 'exploration'),
    'C05': (MON + 'derived variables compared with by-construction values', 'exploration'),
    'C06': (MON + 'well-nestedness and completeness monitor of TOCTREE', 'exploration'),
    'C07': (MON + 'differential with a reference interpreter of the template tree', 'exploration'),
    'C08': (MON + 'mutated templates/sources, exit status and output-file monitor', 'exploration'),
    'C09': (MON + 'listing compared with a model of selection, order and pages', 'exploration'),
    'C10': (MON + 'differential with an independent calendar and strftime in several time zones', 'exploration'),
    'C11': (MON + 'UTF-8 acceptance compared with an independent decoder; output validity monitor', 'exploration'),
    'C12': (MON + 'I/O fault injection at every read/write/open call, exit status against output bytes', 'fault_enumeration'),
    'C13': (MON + 'blogc -p compared with the template value', 'exploration'),
    'C14': (MON + 'parsed configuration compared with the written one', 'exploration'),
    'C15': (MON + 'output tree compared with a model of blogcfile(5) and with blogc itself', 'exploration'),
    'C16': (MON + 'byte comparison of hostile setting values; command monitor', 'exploration'),
    'C17': (MON + 'edit histories: incremental tree against a clean build', 'exploration'),
    'C18': (MON + 'file-tree monitor around clean', 'exploration'),
    'C19': (MON + 'byte comparison of copies, I/O fault injection', 'fault_enumeration'),
    'C20': (MON + 'exit status monitor over injected failures of every step', 'fault_enumeration'),
    'C21': (MON + 'XML well-formedness and entry/address monitor of feeds', 'exploration'),
    'C22': ('tsan and asan builds; edit histories against the running watcher, bounded polls', 'exploration'),
    'C23': ('asan build; request/response monitor against the served tree', 'exploration'),
    'C24': ('asan build; containment monitor: secret markers outside the document root', 'exploration'),
    'C25': ('tsan and asan builds; concurrent hostile clients, per-client response monitor, resource monitor', 'exploration'),
    'C26': (MON + 'execve recorder in place of git-shell', 'exploration'),
    'C27': (MON + 'real pushes and injected failures, deployed tree monitor', 'fault_enumeration'),
    'C28': (MON + 'file-tree monitor around the hook', 'exploration'),
    'C29': (MON + 'argument recorder in place of git push', 'exploration'),
    'C30': (MON + 'metamorphic: equivalent invocations give equal bytes', 'exploration'),
    'C31': ('asan+ubsan harness: operation sequences against abstract models', 'exploration'),
    'C32': (MON + 'sanitizer, exit-status and progress monitor over hostile inputs', 'exploration'),
    'C33': (MON + 'exit status, recording stand-ins and file-tree comparison over blogcfiles with one mistake', 'exploration'),
    'C34': (MON + 'predicted output, exit status and file tree of generated command lines', 'exploration'),
    'C35': ('asan build; monitor of the listening sockets, banner and exit status of generated command lines', 'exploration'),
    'C36': ('plain build with a preloaded stand-in that answers and records the questions to the system; oracle on the output', 'exploration'),
    'C37': ('recorder in the place of blogc and blogc-runserver; recorded calls, messages and tree compared with a model of the command line', 'exploration'),
    'C38': (MON + 'metamorphic oracle: the same text in other surroundings', 'exploration'),
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'checks', pid + '.py')):
        t, lvl = T[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 checks/%s.py' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % pid,
            'technique': 'runtime monitoring: ' + t,
            'level': lvl,
            'level_note': 'Held on the executions listed in the evidence file, judged by an oracle that is '
                          'independent of the code; bounded by the generator described in DESIGN.md. Trusts the '
                          'oracle, the sanitizers, the C library and the kernel.'})
    else:
        na.append({'property': pid, 'reason': 'its check is not built yet; runtime monitoring applies (see DESIGN.md)'})
m = {'version': 1,
     'setup_cmd': 'python3 lib/vbuild.py asan tsan plain fuzz',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks build the sources of /repo as they are'},
     'checks': checks, 'not_applicable': na,
     'notes': 'All checks build from the current tree of /repo into /verif/.build; VERIF_SEED selects the cases.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
