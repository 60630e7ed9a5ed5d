"""C06: the caches."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["No block opens, inside itself, the file it has open, or another one for writing when there is a limit.",
               "Modification times differ (the driver sets those of a FileCache, to an eighth of a second or more apart)."]


def run(ctx):
    ctx.model_check('CacheMC', workers=8, constants={'MaxOps': 7} if ctx.thorough else None, timeout=1500, heap='8g')
    beh = ctx.generate('CacheMC', 'CacheGen', simulate=400 if ctx.thorough else 80, depth=14, workers=4, limit=6000 if ctx.thorough else 800)
    files = ctx.drive('cache', {'behaviours': beh, 'random': 4000 if ctx.thorough else 400, 'probe': 160 if ctx.thorough else 24,
                                'count': 64 if ctx.thorough else 16}, shards=8, timeout=840)
    ctx.judge('CacheTrace', files, timeout=800)
