"""C03: streaming reads of recordings."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["The file does not change while it is read.",
               "Frames are displaced by less than the depth of the reader's ring.",
               "COR files are not driven: one time slot of all 32896 baselines is 139 MB."]


def run(ctx):
    ctx.build()
    ctx.model_check('LDPStreamMC', workers=6, constants={'NSlots': 9, 'MaxOps': 5} if ctx.thorough else None, timeout=1500)
    beh = ctx.generate('LDPStreamMC', 'LDPStreamGen', simulate=6000 if ctx.thorough else 600, depth=7, workers=4,
                       limit=6000 if ctx.thorough else 600)
    files = ctx.drive('ldp_stream', {'behaviours': beh, 'random': 16000 if ctx.thorough else 1400}, shards=8, timeout=840)
    ctx.judge('LDPStreamTrace', files, timeout=800)
