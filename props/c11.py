"""C11: visibility data in memory."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Up to nine data sets of at most seven baselines, two channels and four polarizations, three lists and four separate polarizations.",
               "A polarization object belongs to one data set; a list is not changed while it is iterated over.",
               "Rephasing is not part of the specification."]


def run(ctx):
    ctx.build()
    ctx.model_check('VisDataMC', workers=8, constants={'MaxOps': 4} if ctx.thorough else None, timeout=1500, heap='8g')
    n = 3000 if ctx.thorough else 250
    beh = ctx.generate('VisDataMC', 'VisDataGen', simulate=n, depth=60, limit=n)
    files = ctx.drive('visdata', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('VisDataTrace', files, timeout=800)
