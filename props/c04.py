"""C04: time stamps."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Days that end with a leap second are left out: UNIX time is not uniform on them.",
               "Instants from 1980 to 2038."]


def run(ctx):
    ctx.build()
    ctx.model_check('TimestampMC', workers=6, constants={'MaxOps': 8, 'FS': 5} if ctx.thorough else None, timeout=1500)
    beh = ctx.generate('TimestampMC', 'TimestampGen', workers=4, limit=20000 if ctx.thorough else 1500)
    files = ctx.drive('timestamp', {'behaviours': beh, 'random': 60000 if ctx.thorough else 4000}, shards=8, timeout=840)
    ctx.judge('TimestampTrace', files, timeout=800)
