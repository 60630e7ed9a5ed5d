"""C09: the correlator and the spectrometer."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Delays are whole samples at each channel, gains powers of two; the polyphase filter bank is not covered.",
               "Transforms of up to 8 samples; those of 3, 5, 6 and 8 samples to a few parts in a hundred, the others exactly.",
               "The X and the Y inputs list the stands in the same order; U and V as the tests of the repository define them."]


def run(ctx):
    ctx.build()
    ctx.model_check('CorrMC', workers=8, constants={'T': 5} if ctx.thorough else {'T': 3}, timeout=1500, heap='8g')
    beh = ctx.generate('CorrMC', 'CorrGen', constants={'T': 5} if ctx.thorough else None, limit=6000 if ctx.thorough else 700)
    k = 12 if ctx.thorough else 1
    files = ctx.drive('corr', {'behaviours': beh, 'fx': 360*k, 'stokes': 90*k, 'spec': 160*k, 'x': 200*k, 'bl': 120*k}, shards=8, timeout=840)
    ctx.judge('CorrTrace', files, timeout=800)
