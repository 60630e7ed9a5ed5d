"""C08: frames mean what their bytes say."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["A COR recording is read in a process whose last COR frame had its number of channels (known finding otherwise).",
               "Corrupt frames keep their length.", "DR spectrometer fills are not zero."]


def run(ctx):
    ctx.build()
    ctx.model_check('WireMC', workers=6, constants={'MaxSlots': 4, 'MaxOps': 5} if ctx.thorough else None, timeout=1500)
    ctx.model_check('WireMC', 'WireDrain', workers=6, constants={'MaxSlots': 6, 'MaxOps': 20} if ctx.thorough else None)
    beh = ctx.generate('WireMC', 'WireGen', simulate=3000 if ctx.thorough else 300, depth=6, workers=4,
                       limit=20000 if ctx.thorough else 1200)
    files = ctx.drive('wire', {'behaviours': beh, 'random': 3000 if ctx.thorough else 360}, shards=6, timeout=800)
    ctx.judge('WireTrace', files, timeout=800, chunk=1500)
