"""C24: frames as numbers."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Samples in eighths; results that a single precision number cannot hold exactly are not asked for.",
               "Frames of kinds that are mixed, and spectra with more products than are asked for, are left open."]


def run(ctx):
    ctx.build()
    ctx.model_check('SumsMC', workers=8, timeout=800, heap='6g', constants={'MaxOps': 4} if ctx.thorough else None)
    n = 6000 if ctx.thorough else 900
    beh = ctx.generate('SumsMC', 'SumsGen', simulate=n, depth=52, limit=n)
    files = ctx.drive('sums', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('SumsTrace', files, timeout=800)
