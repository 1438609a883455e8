#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
 'C01': ('differential simulation over node counts, arrival orders and relative speeds', 'every watch, log and trajectory of 2..8 simulated nodes compared bit for bit with the one-node run of the same input; initial watch against the input'),
 'C02': ('differential simulation over node counts and reduction orders, superposition oracle', 'observer fields of 2..8 nodes against one node (rounding of the sum allowed) and against the sum of runs of the single beam elements'),
 'C03': ('differential simulation over node counts, known-field oracle', 'lattice observers of 2..8 nodes against one node; constant fields against their value; runs with and without interactions'),
 'C04': ('differential simulation over node counts and arrival orders', 'FEL log, watches and logs of 2..8 nodes bit for bit against one node; number of records; sub-sampled logs against the full one'),
 'C05': ('simulation with per-node random sources under control of the seed', 'nodes draw different entropy; all outputs against a run where only the root draws; number, charge, order conserved; beam recreated particle by particle from the initial watch must lead to the same later outputs'),
 'C06': ('seeded interleaving of threads at memory accesses, race-directed', 'observer files of 2..8 threads bit for bit against one thread; cells against single-cell observers'),
 'C07': ('seeded interleaving of threads at memory accesses, race-directed', 'output of the tool with 2..8 threads bit for bit against one thread; cells computed alone, reversed meshes and linearity as oracles'),
 'C08': ('seeded interleaving of threads at memory accesses, race-directed', 'output of the tool with 2..8 threads bit for bit against one thread; cells computed alone, reversed meshes and linearity as oracles'),
 'C09': ('simulation checked against a step-by-step reference history', 'every watch and log record against the coordinates (and derived moments) of its step taken from an independent run that watches every step'),
 'C10': ('seeded schedules with deadlock, collective and step-budget monitors', 'every run of a valid input ends as success on all nodes, prints one finish message, all outputs readable, all collectives matched'),
 'C11': ('fault injection into clocks and host statistics', 'clock skew, jumps back and forth, frozen and racing clocks, nine kinds of /proc contents; outputs bit for bit those of the undisturbed run'),
 'C12': ('I/O fault injection at system calls and library calls, disk full', 'a file that is announced (or a run that ends silently as success) must hold what the undisturbed run wrote'),
 'C13': ('I/O fault injection at system calls and library calls', 'all files other than the failing one are those of the undisturbed run'),
 'C14': ('crash injection: job killed at seeded event numbers', 'every file announced before the kill is readable and complete with only the durable state surviving'),
 'C15': ('node kill and allocation failure injection', 'the job ends as a failure, without finish message and without complete looking but wrong files'),
 'C16': ('read fault injection, truncated and missing inputs, per node or on all nodes', 'the run fails, or reports the error and its results are those of the data it reported'),
 'C17': ('simulation with shadow heap, buffer-bound checks and varied contents of fresh memory', 'no access outside live blocks in any run (also on error paths), outputs independent of the content of fresh memory'),
 'C18': ('differential simulation over node counts', 'particle list of a snapshot against one node and against the interpolated reference history'),
 'C19': ('seeded interleaving of the start-up file operations of all nodes with file locking', 'runs with shared inputs start on 2..8 nodes in any order, inputs stay untouched, diagnostics readable and equal to the one-node run'),
 'C20': ('crash and fault injection followed by a rerun on the surviving files', 'job kills, node kills, I/O faults and full disks in the first run; inputs intact and the repeated run bit for bit that of a fresh directory'),
 'C21': ('differential simulation over sets and orders of outputs', 'every output bit for bit that of a run which requests only this one (or a random subset), and that of a run with outputs in another order, on 1..12 nodes'),
 'C23': ('simulation of histories of two runs under seeded schedules', 'the second run on the file the first one wrote (1..4 nodes) against the same run on a file with the recorded fields and the requested geometry written by an independent writer'),
 'C24': ('resource-limit fault injection (open files per node)', 'runs with 11..25 files of one kind under a limit of 8 open files per node, bit for bit against the run without limit'),
 'C25': ('simulation of the random source, statistics over seeded draws', 'pairs of runs of random bunches with different draws: every coordinate against its requested distribution (mean, spread, range, shape, repetition, serial correlation) and against all other coordinates, bunches and the other run, limits at 7 or more standard deviations'),
 'C30': ('simulation over node counts and schedules with an independent solution as oracle, two step sizes', 'up to 17 particles in sums of homogeneous fields on 1..12 nodes against a fourth-order solution of the equation of motion: second-order error bound at the step and a quarter of it, time, start, energy; only homogeneous fields have an oracle'),
 'C35': ('simulation over node counts and schedules with an independent model as oracle', '1-4 SDDS bunches with random directions, offsets and correlations on 1..12 nodes: watch of the initial and the last step against a model of the placement in numpy'),
 'C33': ('differential simulation over node counts and the writing of the numbers', 'runs whose numbers are seeded expressions of constants and variables on 1..8 nodes bit for bit against the run with plain numbers; printed variables against their value; unreadable numbers must be reported'),
 'C22': ('differential simulation over node counts of the recorded console history', 'report of the root node line by line against one node, shares of the nodes against the beam, each per-node message once'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = 'a pure function of its arguments: no thread, node, clock, file, fault or random source takes part, so there is no schedule or fault to simulate; the simulated runs exercise this code, but deciding it needs enumeration of inputs or proof, another family of technique'
m = dict(version=1, setup_cmd='python3 build.py',
    hooks=dict(guard='TEUSIM_HOOKS', enable='no hooks in /repo are needed: the sources are compiled unchanged (with -fsanitize=thread as a hook on memory accesses) and linked against the simulator in place of MPI, libgomp, the file system calls, clocks, the heap and std::random_device', source_commits=[]),
    checks=[dict(property=q['id'], quick_cmd='python3 check.py %s' % q['id'], thorough_cmd='python3 check.py %s --tier thorough' % q['id'], evidence_file='evidence/%s.json' % q['id'],
        technique='deterministic simulation with fault injection: ' + T[q['id']][0], level='exploration',
        level_note=T[q['id']][1] + '. Seeded search: assurance is that of the cases explored (counts in the evidence). Trusts the simulated MPI, OpenMP runtime and disk model (DESIGN.md) and, where a run is compared with another one, that run.') for q in props if q['id'] in T],
    not_applicable=[dict(property=q['id'], reason=NA) for q in props if q['id'] not in T],
    notes='setup builds the simulator and the nodes from /repo/src (about 30 s with 8 cores); each check rebuilds what changed. --replay FILE repeats a recorded violation; --seed chooses another stream of cases; known defects in known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
