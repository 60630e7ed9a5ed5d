"""C22: dispersion undone, beams formed."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Delays of beams are whole quarters of a period at the base frequency (positions, cables and the five directions are chosen so), so that every phase is exact; cables have no dispersion.",
               "The chirp of coherent dedispersion is the documented equation, evaluated by the driver about the mean of the channel frequencies; what is judged is which samples every half window is made of."]


def run(ctx):
    ctx.build()
    ctx.model_check('DelaysMC', workers=8, timeout=600, heap='4g', constants={'MaxL': 128 if ctx.thorough else 64})
    n = 4000 if ctx.thorough else 500
    beh = ctx.generate('DelaysMC', 'DelaysGen', simulate=n, depth=34, limit=n)
    files = ctx.drive('delays', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('DelaysTrace', files, timeout=800)
