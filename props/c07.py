"""C07: the configuration."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["A parameter that a block has set for the time being is not set for good inside the block, and nobody saves in one.",
               "Text values do not read as something else (a number, True, False) and have no line breaks or spaces around them.",
               "Two writes of the file are further apart than the clock of the file system ticks."]


def run(ctx):
    ctx.model_check('ConfigMC', workers=8, constants={'MaxOps': 8} if ctx.thorough else None, timeout=1500, heap='8g')
    beh = ctx.generate('ConfigMC', 'ConfigGen', simulate=2000 if ctx.thorough else 400, depth=16, workers=4,
                       limit=24000 if ctx.thorough else 3000)
    files = ctx.drive('config', {'behaviours': beh, 'random': 4000 if ctx.thorough else 400}, shards=8, timeout=840)
    ctx.judge('ConfigTrace', files, timeout=800)
