"""C13: interferometer definition files."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Runs of up to four scans with up to eleven alternate phase centers, two runs per project, LWA1, LWA-SV, LWA-NA and OVRO-LWA.",
               "Texts are single lines.  Whether a target is above the horizon, and how far apart two directions are, is taken from ephem; "
               "cases within a degree of the horizon or 3% of the edge of the beam are not judged.",
               "Runs without scans, and the ASP filter setting in the session definition files, are not part of the specification."]


def run(ctx):
    ctx.build()
    ctx.model_check('IdfMC', workers=8, constants={'MaxObs': 3, 'MaxOps': 3} if ctx.thorough else None, timeout=1500, heap='8g')
    n = 3000 if ctx.thorough else 320
    beh = ctx.generate('IdfMC', 'IdfGen', simulate=n, depth=40, limit=n)
    files = ctx.drive('idf', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('IdfTrace', files, timeout=800)
