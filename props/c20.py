"""C20: what is written to DRX frames, VDIF frames and SDFITS files."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["VDIF frames are given whole numbers of frames per second and times on the frame grid (to 2 ns); leap seconds themselves are not given.",
               "DRX samples are checked at a sample of positions by the specification and at all positions by the driver's own copy of the rule.",
               "SDFITS sets have the first polarization for every time and every beam; later polarizations may lack beams."]


def run(ctx):
    ctx.build()
    ctx.model_check('ScribeMC', workers=4, timeout=600, heap='4g', constants={'MaxOps': 150} if ctx.thorough else {})
    n = 4000 if ctx.thorough else 400
    beh = ctx.generate('ScribeMC', 'ScribeGen', simulate=n, depth=16, limit=n)
    files = ctx.drive('scribe', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('ScribeTrace', files, timeout=800)
