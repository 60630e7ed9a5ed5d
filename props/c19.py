"""C19: telemetry."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Sessions are processes of their own with a configuration directory in a scratch folder; the server is a stand-in in the process that sends.",
               "What was counted before a session is turned off, and what a session that is killed had not written down yet, may be kept or not.",
               "A server that was told but whose answer was lost may be told again.",
               "When two sessions change the setting at the same time either one may stay (the configuration file is C09's business)."]


def run(ctx):
    ctx.build()
    ctx.model_check('ConsentMC', workers=8, timeout=900, heap='8g', constants={'Calls': 3, 'MaxOps': 17} if ctx.thorough else {'MaxOps': 14})
    n = 4000 if ctx.thorough else 400
    beh = ctx.generate('ConsentMC', 'ConsentGen', simulate=n, depth=60, limit=n)
    files = ctx.drive('consent', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('ConsentTrace', files, timeout=800)
