#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after editing)."""
import json, pathlib
T = {
 'C01': ('exact-time reference model monitor', 'random sets, clocks and bounds; every sample, time and calibration compared with a model in exact rational time'),
 'C02': ('reference model monitor', 'random sets with permuted channels, joins in every order; each name compared with the model'),
 'C03': ('reference model monitor', 'random overlapping layouts, merges in every order and grouping, exact interval intersection'),
 'C04': ('reference model monitor', 'random selectors in every form compared with direct indexing'),
 'C05': ('reference model monitor', 'random run selectors compared with numpy indexing of the run list'),
 'C06': ('reference model monitor', 'random chains of gapless and separated runs at exact and inexact rates'),
 'C07': ('reference model monitor', 'random surveys split into records in every way, packed in several orders, compared with an independent computation of common stretches'),
 'C08': ('reference model monitor', 'random inventories and queries compared with an independent glob matcher and the model'),
 'C09': ('history checker against a dictionary model', 'random histories of name edits, each step and refusal compared with a plain dictionary'),
 'C10': ('program model monitor with state re-inspection', 'random programs of operations; every result against the model and every earlier object re-inspected'),
 'C11': ('reference numeric monitor', 'direct summation of the documented transform'),
 'C12': ('differential monitor over storages and schedulers', 'same survey in several storages, chunkings, schedulers and threads'),
 'C13': ('reference numeric and metamorphic monitor', 'independent least squares, optimality by perturbation, transformations'),
 'C14': ('reference numeric monitor', 'independent implementation of the documented reweighting chain, cases too close to a decision are skipped'),
 'C15': ('fault injection in the data with recovery oracle', 'corrupted windows injected, accuracy and named windows compared with the clean data'),
 'C16': ('schedule control, fault injection and history comparison', 'estimations repeated after random histories and failures, under line-level interleavings of threads; bit equality'),
 'C17': ('reference numeric and statistical monitor', 'direct formula, scaling laws, and Monte-Carlo scatter with fixed seeds'),
 'C18': ('synthetic ground truth monitor', 'synthetic sites with known filters and calibrations; independent windowed regression'),
 'C19': ('synthetic ground truth monitor', 'independent two-stage regression, cross-spectral estimate and bias of noisy local channels'),
 'C20': ('fault injection with isolation oracle', 'failures of every documented kind injected at random frequencies; the others bit for bit as alone'),
 'C21': ('reference time monitor', 'rejected windows forced at known times, exact expected centres'),
 'C22': ('reference numeric monitor', 'independent per-block regression'),
 'C23': ('byte-level file generator with exact oracle', 'files written byte by byte from the published layout'),
 'C24': ('differential monitor against numpy with backend range recorder, racing threads, interleavings and truncation faults', 'every index compared with numpy'),
 'C25': ('table oracle on generated files', 'generated calibration files in a private copy of the package'),
 'C26': ('table oracle on generated files', 'generated calibration files with interleaved levels'),
 'C27': ('file-system model with tree snapshots', 'random directory states and sequences in a private copy of the package and scratch directories'),
 'C28': ('independent matcher', 'backtracking matcher sharing nothing with the code, near-miss paths'),
 'C29': ('read tracing (open audit, bytes read, deferred and truncated files)', 'files completed only after the program, bytes read by the process bounded, rest of the file cut off'),
 'C30': ('differential monitor', 'every combination recomputed by a direct estimation of the packed inventory'),
 'C31': ('fresh-process command monitor', 'fake installed packages on the import path of fresh processes'),
 'C32': ('differential monitor', 'real-valued against complex estimations and an independent regression'),
 'C33': ('constructor invariant hooks', 'every object constructed under unrestricted random programs inspected; mutated data must be refused'),
 'C34': ('independent eigenproblem oracle', 'exact most concentrated sequence for short tapers, energy and shape for long ones'),
 'C35': ('reference formula and metamorphic monitor', 'independent formulas, monotonicity, scale, phase and order invariance'),
 'C36': ('printed text read back and compared with the content', 'text parsed independently, under several local time zones and hostile names'),
 'C37': ('differential monitor across processes', 'digests of everything observed, in fresh processes of different hash seeds, zones, locales and pasts'),
}
checks = [dict(property=k, quick_cmd=f'python3 run.py {k}', thorough_cmd=f'python3 run.py {k} --tier thorough', technique='runtime monitoring: ' + a, level='exploration',
               level_note=f'{b[0].upper()}{b[1:]}. Holds on the executions observed (seeded, counted in the evidence); trusts numpy, scipy, dask and the harness oracle.')
          for k, (a, b) in T.items()]
root = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)['id'] for l in (root / 'properties.jsonl').read_text().splitlines()]
assert ids == list(T), set(ids) ^ set(T)
(root / 'MANIFEST.json').write_text(json.dumps(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[]), indent=1) + '\n')
