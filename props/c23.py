"""C23: the log."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Records of the LSL logger and of the warnings that it captures; loggers of the user's own below it are Python's.",
               "Several filters let through what all of them let through."]


def run(ctx):
    ctx.build()
    ctx.model_check('JournalMC', workers=8, timeout=800, heap='6g', constants={'MaxOps': 5} if ctx.thorough else None)
    n = 6000 if ctx.thorough else 600
    beh = ctx.generate('JournalMC', 'JournalGen', simulate=n, depth=44, limit=n)
    files = ctx.drive('journal', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('JournalTrace', files, timeout=800)
