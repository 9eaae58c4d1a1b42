#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from props import PROPS  # noqa

A = 'mpnum/mparray.py'
M = {}


def P(i, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, (i, len(title))
    M[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                             hook_needed=None)), note


P('C01', 'Dense arrays survive conversion to matrix-product form and back',
  'For every dense array, any number of sites, any number of legs per site (also none, also different per site) and any '
  'leg dimensions (also 1), converting it to a matrix-product array and back, in local or global leg order, returns the '
  'same array; the reported lengths, shapes, ranks, number of legs and size agree with it. The converted array is '
  'left-canonical and its ranks do not exceed the maximal ranks for its shape. A product of given factors is represented '
  'exactly with all ranks equal to one.',
  ['inputs', 'configurations'], 'all dense arrays x leg partitions x dtypes x local/global order',
  'Tests sample equal dimensions per site and a handful of (sites, dim, rank) triples from a fixed list; unequal legs per '
  'site, legs of dimension one, integer and single precision input are hardly touched.',
  [A, 'mpnum/utils/array_transforms.py'],
  [('successive QR factorisation', A + ':_extract_factors'), ('contraction of the chain', A + ':_ltens_to_array'),
   ('local/global leg order', 'mpnum/utils/array_transforms.py')],
  ['MPArray.from_array', 'from_array_global', 'from_kron', 'to_array', 'to_array_global', 'shape/ranks/ndims/size'],
  'exact integer semantics of every conversion in TLA+ (Heap.tla); each recorded call is judged by TLC')

P('C02', 'Arithmetic on matrix-product arrays is the arithmetic of the tensors',
  'Adding, subtracting, negating, scaling, dividing (also in place), summing up many arrays with or without weights, '
  'conjugating, transposing and taking adjoints give exactly the tensor that the same operation gives on the represented '
  'dense tensors, up to rounding, for all shapes, ranks, element types (mixed real, complex, single precision, integer) '
  'and internal canonical forms of the operands. The rank of a sum does not exceed the sum of the ranks, and the other '
  'operations keep the ranks. Summing up product arrays with a rank bound respects the bound and is exact whenever the '
  'bound is large enough.',
  ['inputs', 'programs'], 'all operand tuples, scalars, weights and expressions composed of these operations',
  'Tests compare a few random float arrays of uniform shape; mixed element types, operands in partially canonical form, '
  'one-site chains and compositions are not enumerated.',
  [A, 'mpnum/special.py'],
  [('block-diagonal concatenation', A + ':_local_add'), ('scalar folded into one site', A + ':MPArray.__mul__'),
   ('streaming compressed sum', 'mpnum/special.py:sumup')],
  ['+', '-', '*', '/', '*=', '/=', 'sumup', 'special.sumup', 'conj', 'T', 'transpose', 'adj'],
  'exact Gaussian-integer semantics in TLA+; every recorded call judged by TLC')

P('C03', 'Contractions, traces, inner products and norms equal their dense values',
  'Products over chosen legs, partial products with a shorter chain, inner products, expectation values, norms, distances, '
  'traces, partial traces, sums over legs, diagonals and site-wise outer products give the value obtained from the '
  'represented dense tensors, for all leg choices (also negative), shapes, ranks, element types and internal canonical '
  'forms. Results come with the documented site and leg order, and with the result type the caller asked for.',
  ['inputs', 'programs'], 'all operands, leg selections and canonical forms',
  'Tests use default legs and uniform shapes for most of these functions and fresh (never canonicalised) operands.',
  [A, 'mpnum/linalg.py', 'mpnum/special.py'],
  [('leg contraction with virtual legs rearranged', A + ':_local_dot'), ('left vectors', 'mpnum/linalg.py:_eig_leftvec_add'),
   ('norm from canonical form', A + ':norm'), ('contraction of legless sites', A + ':_prune_ltens')],
  ['dot', 'partialdot', 'inner', 'sandwich', 'norm', 'normdist', 'trace', 'partialtrace', 'sum', 'diag', 'localouter',
   'inner_prod_mps'],
  'exact integer semantics in TLA+; every recorded call judged by TLC')

P('C04', 'Operations on sites and legs rearrange the tensor exactly as documented',
  'Chaining, injecting sites, embedding a part into a longer chain, summing local terms over a chain, pruning legless '
  'sites, grouping and splitting sites, turning a bond into legs and back, splitting the chain, reversing it, reshaping '
  'legs, padding ranks, fixing leg values and iterating over legs give exactly the documented tensor with the documented '
  'shape for all arguments and operands. Padding reaches exactly the requested ranks, and the sum of local terms over '
  'consecutive positions has ranks of at most width times the largest term rank plus one. Requests that cannot be met '
  '(a group size not dividing the length, an empty chain) are rejected.',
  ['inputs', 'programs'], 'all operands, positions, widths, numbers of injected sites, shapes',
  'Tests fix a few positions and uniform shapes; different legs per site, width one, several injection points, borders '
  'and element type combinations are sampled sparsely.',
  [A, 'mpnum/utils/extmath.py'],
  [('interleaving of identity bonds', A + ':inject'), ('triangular block construction', A + ':_local_sum_identity'),
   ('bond <-> leg conversion', A + ':MPArray.vleg2leg')],
  ['chain', 'inject', 'embed_slice', 'local_sum', 'prune', 'group_sites', 'split_sites', 'vleg2leg', 'leg2vleg', 'split',
   'reverse', 'reshape', 'ravel', 'pad_ranks', 'get', 'axis_iter'],
  'exact integer semantics in TLA+; every recorded call judged by TLC')

P('C05', 'Canonicalization keeps the tensor and reaches the requested form',
  'From every internal state, canonicalization with any arguments leaves the represented tensor unchanged, never increases '
  'a rank, and afterwards all sites left of the left target are left-normalized, all sites from the right target on are '
  'right-normalized, and the object reports at least that form. Without arguments all sites but one end up normalized. '
  'Targets out of range raise an index error and overlapping targets raise a value error, leaving the tensor as it was.',
  ['inputs', 'histories', 'configurations'],
  'all (left, right) argument pairs (None, almost-full, every integer incl. negative and out of range) x all canonical '
  'forms reachable before x ranks above the maximum, rank-deficient, zero tensors',
  'Tests canonicalize a few fresh random arrays to a few targets; they never combine all argument pairs with all reachable '
  'states, nor rank-deficient or zero tensors.',
  [A, 'mpnum/mpstruct.py'],
  [('QR sweeps', A + ':MPArray._rcanonicalize/_lcanonicalize'), ('target resolution', A + ':MPArray.canonicalize'),
   ('bookkeeping', 'mpnum/mpstruct.py:LocalTensors')],
  ['MPArray.canonicalize', 'MPArray.canonical_form', 'MPArray.lt'],
  'CanonicalForm.tla model-checked for all states (N<=4); the full argument table replayed on the real code from every '
  'reachable form and judged by TLC')

P('C06', 'The canonical form an object reports is true after every history',
  'After every sequence of operations, the sites an object reports as left-normalized (right-normalized) really are, bond '
  'dimensions of neighbouring sites match and the reported ranks are the actual ones. This includes replacing single or '
  'several site tensors, with or without declaring the new tensors as normalized, by positive or negative position. '
  'Replacements and constructions with non-matching bond dimensions are rejected and change nothing.',
  ['histories', 'programs'],
  'all sequences of tensor updates, scaling, canonicalization, compression, norm computation and leg operations',
  'Tests check the reported form after single operations on fresh objects; the bookkeeping bugs need particular sequences '
  '(update at the border of a canonical block, both blocks meeting, negative positions).',
  ['mpnum/mpstruct.py', A],
  [('update of the canonical interval', 'mpnum/mpstruct.py:LocalTensors._update'),
   ('forms carried over to results', A + ': __mul__, T, conj, reshape, vleg2leg, leg2vleg, split')],
  ['MPArray.canonical_form', 'MPArray.lt', 'LocalTensors.update'],
  'CanonicalForm.tla: soundness invariant checked over the complete state space for N<=4; all emitted transitions replayed '
  'on real objects, plus random exact histories judged by TLC')

P('C07', 'Operations leave their operands and all other objects untouched',
  'No operation that returns a new array changes the tensor represented by its operands or by any other live array, and '
  'in-place operations (scaling, dividing, canonicalization, compression, computing norms or singular values, replacing '
  'site tensors) change only the object they are applied to, whatever memory it shares with arrays derived from it or it '
  'was derived from. Site tensors handed out are read-only, and writing into dense results changes no array.',
  ['histories', 'programs'], 'all pairs and longer sequences of deriving and in-place operations, on all live objects',
  'Tests look at the result of one operation; sharing shows only when a derived object and its origin are both used '
  'afterwards, with one of them modified in place.',
  [A, 'mpnum/mpstruct.py'],
  [('rebinding instead of writing', 'mpnum/mpstruct.py:LocalTensors._update'), ('read-only views', 'mpnum/mpstruct.py:_roview'),
   ('copies', A + ':MPArray.copy, compression')],
  ['all public operations of MPArray', 'MPArray.lt'],
  'Alias.tla (ownership design) model-checked; all derive x in-place scripts of the model replayed, all live objects '
  'observed after every call, judged by TLC')

import meta2  # noqa
meta2.define(P)

import meta3  # noqa
meta3.refine(M)

ORDER = sorted(M)


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i in ORDER:
            if i in PROPS:
                f.write(json.dumps(M[i][0]) + '\n')
    man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
    for i in ORDER:
        if i not in PROPS:
            continue
        man['checks'].append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification, TLC model checking and TLC trace validation of the real code',
            level='model_checking',
            level_note=M[i][1] + '. Assumes TLC, the JSON encoding of observations (harness/obs.py) and, for numbers, '
            'comparison up to 1e-6 relative rounding (5e-3 single precision).'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
