"""C14: metadata bundles."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Bundles of up to sixteen members; observation files with up to three steps; the names MCS gives its files, at the top of the bundle, in a folder, or outside of it.",
               "Truncated session specifications and command scripts are not judged; command data has no NUL bytes.",
               "A bundle that is overwritten in place within the resolution of the clock of the file system, with the same length, is not generated."]


def run(ctx):
    ctx.build()
    ctx.model_check('BundleMC', workers=8, timeout=1500, heap='8g')
    n = 2000 if ctx.thorough else 240
    beh = ctx.generate('BundleMC', 'BundleGen', simulate=n, depth=40, limit=n)
    files = ctx.drive('bundle', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('BundleTrace', files, timeout=800)
