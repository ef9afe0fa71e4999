#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection: '
T = {
    'C01': ('seeded histories of a whole learner (draws, rejections, checkpoints, crashes) against a ledger of what was fit',
            'Every operation of every simulated history is followed by a full audit of the tree against an independent ledger of the fit instances.'),
    'C02': ('seeded histories under adversarial draw streams, each step refined against an executable reference model of the algorithm',
            'Each fit must be explainable as a sequence of steps that are maximal in an independently computed category utility; values the library reports are compared too.'),
    'C03': ('queries aborted at seeded instants (interrupts, memory errors), tree and arguments compared with snapshots',
            'Every query kind is run to completion and aborted at sampled line events; the whole tree and all arguments are compared before and after.'),
    'C04': ('seeded thread schedules over several clients with trees of their own, compared with solo runs',
            'Threads are switched only at points chosen by the seed; results must equal those of the solo runs.'),
    'C05': ('seeded thread schedules over concurrent readers of one tree, compared with solo answers',
            'Threads are switched only at points chosen by the seed; every answer must equal the solo answer.'),
    'C06': ('malformed-input faults at seeded points of histories, compared with the fault-free twin run',
            'The tree after a refused instance is compared with its state before and with a twin history without the fault.'),
    'C07': ('same history replayed in peer processes with different hash seeds, address layouts, clocks and prior activity',
            'Histories are replayed in a persistent peer process with another hash seed and a perturbed environment; all results must be equal.'),
    'C08': ('adversarial random streams (extreme and constant draws) against an oracle for legal predictions',
            'Every prediction is checked against the set of legal values computed from the tables; sampling frequencies by counting over quantile draws.'),
    'C09': ('clustering iterators suspended and resumed at seeded points of a history, refined against a reference model of cuts',
            'Every yielded clustering is checked to be the next best cut of a snapshot of the tree, whatever happens to the source tree meanwhile.'),
    'C10': ('seeded relational histories, table deltas of the learner refined against a search for the renaming',
            'What the root gained is matched against the flattened instance under a bijection found by the checker; local optimality of the renaming is checked independently.'),
    'C11': ('seeded schedules of concurrent transform/undo clients with aborted transforms',
            'Every client must get its own instance back under every simulated schedule and after aborted transforms.'),
    'C12': ('simulated disk with short, torn and failing writes, full disk and crashes under the visualization calls',
            'After a normal return the output must be complete and equal to an independent rendering; after a fault the call must have failed and a retry must repair.'),
    'C13': ('simulated disk with short and failing reads, aborted and interleaved loads, against an independent parse of the files',
            'Every load returns exactly the expected instances or raises; handles are tracked.'),
    'C14': ('whole evaluation runs with failing and aborted scoring, against a model of the protocol recorded at the seams',
            'The tree passed to each scoring call is audited to hold exactly the preceding instances; scores, shuffles and runs are checked from the recorded history.'),
    'C15': ('crash-and-clear histories compared with a newly constructed twin',
            'A cleared tree and a new tree go through the same operations and draws and are compared after each.'),
    'C16': ('checkpoint, crash, restart in a fresh simulated process, compared with the uninterrupted twin',
            'Restored trees and the original go through the same operations and draws and are compared after each.'),
    'C17': ('twin histories that differ only in hidden attributes, same draws',
            'Structure, visible tables and categorizations of the twins are compared after every operation.'),
    'C18': ('seeded histories with all concept probabilities audited against the ledger of stored instances',
            'All concepts at all audited points; numeric formula recomputed independently.'),
    'C19': ('batch fits from failing, one-shot and concurrent sources, compared with one-by-one twins and permutations of the ledger',
            'The order in which instances enter the tree is recorded and compared with the specification of passes.'),
    'C20': ('simulated stations exchanging numeric summaries over delayed and reordered messages, with crashes, restarts and thread switches, against the ledger of numbers',
            'After every step the summaries are compared with the batch values of the numbers each one received, within a rounding bound.'),
}
NA = {
    'C31': 'pure function of its input: nothing for a simulator to schedule or to fault',
    'C32': 'pure function of its input: nothing for a simulator to schedule or to fault',
    'C33': 'pure numeric function of its input: nothing for a simulator to schedule or to fault',
}
checks, na = [], []
for pid, (tech, note) in sorted(T.items()):
    if not os.path.exists(os.path.join(V, 'sim', 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'check under construction'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': '/opt/venv/bin/python check.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': DST + tech,
        'level': 'exploration',
        'level_note': note + ' Seeded search: holds on everything explored, no exhaustiveness claim; trusts the '
                             'simulator, its oracle and CPython.',
    })
na += [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import sim.runner"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the library\'s randomness, threads, disk and clock are reached through the seams '
              'Python already has (the random module\'s generator, sys.monitoring events, open/os/shutil, subprocesses). '
              'The library is pure Python and is imported straight from /repo\'s working tree by every run.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
