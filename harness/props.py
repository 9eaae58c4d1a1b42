CF = [dict(module='CanonicalForm', cfg='CF%d.cfg' % n) for n in (1, 2, 3, 4)] + \
     [dict(module='CanonicalForm', cfg='CF%d.cfg' % n, tier='thorough') for n in (5, 6)] + \
     [dict(module='CanonicalForm', cfg='CFFaulty_%s.cfg' % f, refute=True, tier='thorough') for f in ('bond', 'clamp', 'sweep')]
PR = [dict(proof='CFProof', cfg='CFProof', tier='thorough')]
CFE = [dict(module='CanonicalForm', cfg='CFemit%d.cfg' % n, emit='cf%d.jsonl' % n) for n in (1, 2, 3)] + \
      [dict(module='CanonicalForm', cfg='CFemit4.cfg', emit='cf4.jsonl')]
SW = [dict(module='Sweep', cfg='Sweep.cfg')] + \
     [dict(module='Sweep', cfg='SweepFaulty_%s.cfg' % f, refute=True, tier='thorough') for f in ('no_gauge', 'stale_left', 'stale_right')]
LAWS = [dict(module='SpecLaws', cfg='SpecLawsSmall.cfg', cfg_thorough='SpecLaws.cfg')] + \
       [dict(module='SpecLaws', cfg='SpecLawsDeep.cfg', tier='thorough'),
        dict(module='SpecLaws', cfg='SpecLawsFaulty.cfg', refute=True, tier='thorough')]

PROPS = {
    'C01': dict(models=LAWS),
    'C02': dict(models=LAWS),
    'C03': dict(models=LAWS),
    'C04': dict(models=LAWS),
    'C05': dict(models=CF),
    'C06': dict(models=CF + CFE + PR),
    'C07': dict(models=[dict(module='Alias', cfg='Alias.cfg'),
                        dict(module='Alias', cfg='AliasFaulty.cfg', refute=True, tier='thorough'),
                        dict(module='Alias', cfg='AliasEmit2.cfg', emit='alias2.jsonl'),
                        dict(module='Alias', cfg='AliasSim.cfg', emit='aliassim.jsonl', simulate=(300, 3000), depth=5)]),
    'C08': dict(),
    'C09': dict(models=SW),
    'C10': dict(),
    'C11': dict(models=LAWS),
    'C12': dict(models=SW + [dict(module='Sweep', cfg='SweepEmit.cfg', emit='sweep.jsonl')]),
    'C13': dict(models=LAWS),
    'C14': dict(models=[dict(module='Sampling', cfg='Sampling.cfg', cfg_thorough='SamplingDeep.cfg'),
                        dict(module='Sampling', cfg='SamplingEmit.cfg', emit='sampling.jsonl')] +
                       [dict(module='Sampling', cfg='SamplingFaulty_%s.cfg' % f, refute=True, tier='thorough') for f in ('stale', 'indep', 'short')]),
    'C15': dict(),
    'C16': dict(),
    'C17': dict(models=[dict(module='Store', cfg='Store.cfg'),
                        dict(module='Store', cfg='StoreFaulty.cfg', refute=True, tier='thorough'),
                        dict(module='Store', cfg='StoreEmit4.cfg', emit='store4.jsonl'),
                        dict(module='Store', cfg='StoreSim.cfg', emit='storesim.jsonl', simulate=(500, 5000), depth=8)]),
    'C18': dict(),
    'C19': dict(),
    'C20': dict(),
    'C21': dict(),
}
