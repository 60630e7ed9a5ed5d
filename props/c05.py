"""C05: the locks."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["A process does not fork while one of its threads holds the lock.",
               "A thread uses one lock instance for a name at a time.",
               "The lock file is on a file system where flock works, and is not removed."]


def run(ctx):
    ctx.model_check('LockMC', workers=4, constants={'MaxOps': 16} if ctx.thorough else None, timeout=800)
    ctx.model_check('LockImpl', workers=8, constants={'MaxDepth': 3, 'MaxCrash': 3} if ctx.thorough else None, timeout=1500, heap='8g')
    beh = ctx.generate('LockMC', 'LockGen', workers=4, limit=12000 if ctx.thorough else 2500)
    files = ctx.drive('lock', {'behaviours': beh, 'random': 6000 if ctx.thorough else 900, 'free': 320 if ctx.thorough else 32},
                      shards=8, timeout=840)
    ctx.judge('LockTrace', files, timeout=800)
