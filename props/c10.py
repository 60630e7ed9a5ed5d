"""C10: visibility files."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Up to four antennas, four integrations at least one second apart, four polarizations and three bands of at most three channels.",
               "Stand numbers below 1000, channels in ascending order, at least two of them; phase centers at the zenith.",
               "UVFITS keeps times to about ten milliseconds; a measurement set has the middle of the integration and no weights."]


def run(ctx):
    ctx.build()
    ctx.model_check('VisFileMC', workers=8, constants={'MaxOps': 7} if ctx.thorough else None, timeout=1500, heap='8g')
    n = 1600 if ctx.thorough else 100
    beh = ctx.generate('VisFileMC', 'VisFileGen', simulate=n, depth=24, limit=n)
    files = ctx.drive('visfile', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('VisFileTrace', files, timeout=800)
