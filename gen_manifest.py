#!/usr/bin/env python3
"""Writes MANIFEST.json: a check is claimed when dst/<id>.py exists."""
import json
import os
HERE = os.path.dirname(os.path.realpath(__file__))
SCRIPTED = ('deterministic simulation: real nosnoc code under a seeded, fault-injecting scripted NLP sub-solver, simulated clock '
            'and output; ')
NOTE = ('Seeded search over histories and fault sequences; samples, does not enumerate. A clean batch is evidence, not proof. ')
TECH = {
    'C01': (SCRIPTED + 'reference model of the homotopy schedule checked at every NLP call', 'exploration', NOTE),
    'C02': (SCRIPTED + 'returned dict checked against the recorded NLP history and an independent decoding', 'exploration', NOTE),
    'C03': (SCRIPTED + 'interrupts injected at source lines, NLP calls and output; differential against a fresh solver',
            'exploration', NOTE),
    'C04': ('deterministic simulation: client threads under a seeded line-level scheduler; each client\'s event log must equal '
            'its solo log', 'exploration', NOTE),
    'C05': (SCRIPTED + 'histories of set/solve/caller mutation against a reference model of the stored data', 'exploration', NOTE),
    'C06': (SCRIPTED + 'step failures and exceptions in the simulation loop against a reference model of its record',
            'exploration', NOTE),
    'C07': ('deterministic simulation of FESD runs with transient sub-solver faults (real IPOPT behind the seam, or an ideal '
            'sub-solver answering with the exact solution), checked against exact event-driven Filippov trajectories',
            'exploration', NOTE + 'Family of test systems: piecewise constant / polynomial fields with exact solutions.'),
    'C08': ('deterministic simulation of receding-horizon histories with sub-solver faults; the user\'s problem is re-checked on '
            'every successful result; honest adversarial sub-solver (real IPOPT, replaced objective)', 'exploration', NOTE),
    'C09': ('deterministic simulation with a faulty file system: faults at the I/O operations of the dump', 'fault_enumeration',
            NOTE + 'Per run every I/O operation of one dump is failed in turn; configurations are sampled.'),
    'C12': ('deterministic simulation of automatically reformulated nonsmooth ODEs with transient sub-solver faults (ideal '
            'adversarial sub-solver, real IPOPT), checked against exact event-driven trajectories of the original ODE',
            'exploration', NOTE + 'Family of right-hand sides with piecewise polynomial exact solutions.'),
    'C11': ('deterministic simulation of FESD and time-stepping runs under sub-solver faults (ideal adversarial sub-solver, real '
            'IPOPT) on systems whose exact solution has the critical polynomial degree', 'exploration',
            NOTE + 'Coefficients are decided to about 1e-9 (4e-8 for more than 6 stages).'),
    'C14': ('deterministic simulation of histories of data changes, failed and interrupted solves; first initial guess of every '
            'solve checked against the exact solution and bounds', 'exploration', NOTE),
    'C13': (SCRIPTED + 'client misuse injected before, between and after correct data; rejection required, and corrected objects are '
            'compared with fresh ones over all NLP arguments and results', 'exploration', NOTE),
    'C15': (SCRIPTED + 'refinement of every posed NLP against an independent reference of the relaxed problem', 'exploration', NOTE),
    'C16': (SCRIPTED + 'inspections interleaved with the history and hit by output, disk and interrupt faults; compared with the live data '
            'and with the same history without inspections', 'exploration', NOTE),
    'C10': (SCRIPTED + 'final iterates straddling the polishing thresholds, pins checked against a model', 'exploration', NOTE),
}
NA = {
}
checks, na = [], []
for cid, (t, lv, note) in TECH.items():
    if os.path.exists(os.path.join(HERE, 'dst', cid.lower() + '.py')):
        checks.append({'property': cid, 'quick_cmd': f'bash check.sh {cid} quick', 'thorough_cmd': f'bash check.sh {cid} thorough',
                       'technique': t, 'level': lv, 'level_note': note})
    else:
        na.append({'property': cid, 'reason': 'check under construction'})
na += [{'property': k, 'reason': v} for k, v in NA.items()]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
