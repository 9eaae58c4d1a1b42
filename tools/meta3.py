"""Refinements of the statements (kept apart from the first wording)."""
CHANGE = [
    ('C01', 'agree with it.', 'agree with it, and so does the element type.'),
    ('C03', '(also negative)', '(also negative ones for products and traces)'),
    ('C04', '(a group size not dividing the length, an empty chain)',
     '(a group size not dividing the length, an empty chain, positions out of order or of a part of another length, a bond '
     'that is not trivial where it has to be)'),
    ('C09', 'does not decrease with further sweeps;',
     'does not decrease with further sweeps, and several sweeps give the same as one after the other;'),
    ('C13', 'The arguments are not changed.',
     'Outcomes of very small probability keep it. States of another length and unknown choices are rejected, and the '
     'arguments are not changed.'),
    ('C14', 'Samples drawn from any POVM and state,', 'Samples drawn from any POVM (with at least two outcomes) and state,'),
    ('C14', 'and every other one has its exact probability.',
     'and every other one has its exact probability. The random state that is passed in is the only source of randomness, '
     'and states that are not normalized are rejected.'),
    ('C14', 'inverted by unpacking,', 'inverted by unpacking (an integer type that is too small is rejected),'),
    ('C14', 'for any numbers of outcomes per site.', 'for any numbers of outcomes per site and of samples.'),
    ('C15', 'scaled by the factor of proportionality;', 'scaled by the factor of proportionality, however small the elements are;'),
    ('C15', 'weighs them by the samples used,', 'weighs them by the samples used, for any number of samples,'),
    ('C16', 'For every function of outcomes', 'For every POVM with at least two outcomes and every function of outcomes'),
    ('C16', 'and it is reported when it is not.', 'and it is reported when it is not. Wrong numbers of coefficients, functions or '
     'samples are rejected.'),
    ('C18', '(and never more than is possible, unless forced)',
     '(and never more than is possible, unless forced; the maximal ranks reported for a shape are exact)'),
]


def refine(M):
    for i, old, new in CHANGE:
        d = M[i][0]
        assert d['statement'].count(old) == 1, (i, old, d['statement'].count(old))
        d['statement'] = d['statement'].replace(old, new)
