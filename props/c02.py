"""C02: split recordings read as one file."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["The parts do not change while they are being read.", "Part names sort in the order of the recording."]


def run(ctx):
    ctx.build()
    ctx.model_check('SplitFileMC', workers=6, constants={'MaxOps': 8, 'NParts': 4} if ctx.thorough else None, timeout=1500)
    beh = ctx.generate('SplitFileMC', 'SplitFileGen', workers=4, limit=60000 if ctx.thorough else 12000)
    beh += ctx.generate('SplitFileMC', 'SplitFileGen', simulate=3000 if ctx.thorough else 300, depth=13,
                        constants={'MaxOps': 12, 'NParts': 5}, outname='sim.gen', limit=20000 if ctx.thorough else 2000)
    files = ctx.drive('split_file', {'behaviours': beh, 'random': 12000 if ctx.thorough else 2400}, shards=6, timeout=800)
    ctx.judge('SplitFileTrace', files, timeout=800)
