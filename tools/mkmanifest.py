#!/usr/bin/env python3
"""(development aid) regenerate MANIFEST.json from the plan"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'enc': 'abstract interpretation of MIR (value sets, affine forms, bit provenance, trace partitioning) with x86-64 decoding of the emitted byte templates',
    'state': 'abstract interpretation of MIR from an arbitrary state within inferred field invariants; equality, containment and frame obligations',
    'neg': 'must-refuse witnesses: compile-fail programs with accepted twins, and abstract interpretation showing every path panics',
    'once': 'effect-count analysis over the MIR of every expansion',
    'hyg': 'hygiene witnesses generated from the local names of the compiled expansions, decided by name resolution plus MIR analysis',
    'str': 'abstract interpretation of MIR plus call-graph reachability of effects',
}
NA = {
    'C27': 'quantifies over CPU execution of the generated bytes on run-time data; static analysis decides which instructions the bytes denote (C01-C06, C08), not what the hardware computes',
    'C29': 'the register save/restore is opaque inline assembly plus printing; its effect on machine registers is not visible in MIR',
    'C30': 'depends on instruction-fetch atomicity and cross-modifying-code behaviour of the CPU at run time',
}
NOTE = {
    'enc': 'For every listed mnemonic x operand form, all operand values (registers, displacements, immediates, cursor position) are covered by abstract cells; '
           'trusts rustc MIR, the analyser and its x86-64 decoder. Literal spellings and memory shapes are enumerated, not all source texts.',
    'state': 'Holds for every cursor position, page selection and value within the inferred field invariants, for the listed call sequences (short histories from an '
             'arbitrary state; table sizes in the sequences are concrete). Trusts rustc MIR, the analyser and its models of allocation and protection.',
    'neg': 'Each listed unencodable operand is a program that must not compile, next to an accepted twin; operands only known at run time must panic on every path for every value.',
    'once': 'Every embedded-expression position of every listed instruction form; counts effects on every path of the expansion MIR.',
    'hyg': 'Names are taken from the locals the expansion really declares, so a renamed local is still probed.',
}


def main():
    checks = []
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    for p in props:
        if p not in suites.PLAN:
            continue
        kinds = [suites.KIND_OF[f.__name__] for f in suites.PLAN[p]]
        checks.append(dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='python3 tools/check.py %s --thorough' % p,
                           technique='static analysis: ' + '; '.join(TECH[k] for k in kinds), level='other',
                           level_note=' '.join(NOTE[k] for k in kinds if k in NOTE) or NOTE['state']))
    na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in suites.PLAN]
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. Every check recompiles /repo\'s current tree (MIR only) into /verif/build and analyses it; nothing of monoasm is executed.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
