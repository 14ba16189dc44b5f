#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks of mc (run from /verif)."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
done = set(subprocess.run(['target/mc/debug/mc', '--list'], capture_output=True, text=True).stdout.split())
G = "explicit-state enumeration of grammars x inputs on a reference PEG model, every trace replayed on the code Oak generates"
V = "exhaustive enumeration of grammars up to a size, verdict of the real macro compared with the reference model"
O = "exhaustive enumeration of operation sequences on the real runtime against a reference model"
tech = dict(C01=G, C02="exhaustive enumeration of grammars x inputs, the two generated functions compared on each", C03=G, C04="exhaustive enumeration of grammars, types inferred by the reference model stated to rustc on the generated code",
  C05="exhaustive enumeration of grammars, generated code of each compiled by rustc", C06=V + "; accepted ones are run on every input", C07=V, C08=G, C09="exhaustive enumeration of texts, positions and expectation sets on the real runtime against a reference renderer",
  C10=G, C11=G, C12=G, C13=O, C14=O, C15=O, C16="exhaustive enumeration of texts and grammars, file-map stream compared with the string stream", C17="exhaustive enumeration of class texts and of all Unicode scalar values against the reference denotation",
  C18=G + "; every Unicode scalar value for `.` and literals", C19=G + ", for both renderings of each tree", C20="exhaustive enumeration of token strings up to a length, verdict compared with a reference parser of the grammar language",
  C21="exhaustive enumeration of chained grammars; rewritings compared on all inputs on the reference model, bound to the code", C22="exhaustive enumeration of permutations, renamings and layouts of grammars, outcomes compared", C23=G + ", with rules moved to other modules",
  C24=G + ", on user-defined streams", C25=V, C26=G + "; verdicts of ascriptions compared with the model", C27=V + "; accepted recursive grammars run on every input", C28=O, C29="exhaustive enumeration of token strings of the Calc language against a reference evaluator", C30="size-indexed enumeration of grammar families against the reference model",
  C31="exhaustive enumeration of kinds, places and pairs of Rust items in grammars, observed from the generated module", C32="explicit-state enumeration of grammars x inputs on a reference PEG model, the sequence of its steps compared with the log of an instrumented stream", C33=G + ", for complete languages")
note = "Bounded: every grammar / input / operation sequence within the bounds written in DESIGN.md and counted in the evidence, nothing beyond them. Trusts rustc 1.80, the reference model in mc/src and the harness."
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --thorough", technique="model checking: " + tech[i], level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hook is needed: the checks only use the public interface of Oak", source_commits=[]), checks=checks, not_applicable=na,
  notes="The fix: commits of /repo repair genuine defects found by the checks; see known_findings.txt and DESIGN.md.")
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', [x['property'] for x in na])
