"""C12: session definition files."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Sessions of up to four observations with up to four steps (and the limit of 1024 steps), two sessions per project, LWA1.",
               "Texts are single lines.  Whether a target is above the horizon is taken from ephem; cases within a degree of it are not judged.",
               "Sidereal start times and unnamed time zones are not part of the specification."]


def run(ctx):
    ctx.build()
    ctx.model_check('SdfMC', workers=8, constants={'MaxObs': 3, 'MaxOps': 3} if ctx.thorough else None, timeout=1500, heap='8g')
    n = 3000 if ctx.thorough else 320
    beh = ctx.generate('SdfMC', 'SdfGen', simulate=n, depth=40, limit=n)
    files = ctx.drive('sdf', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('SdfTrace', files, timeout=800)
