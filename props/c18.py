"""C18: data files."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["The two servers are stand-ins on the loopback network; all that the code sends out is led to them.",
               "Days go by as the dates of all files are moved back; every event takes a day.",
               "A server that tells no length or no proper date may be passed over or used.",
               "One process is killed at a time; what another process reads while a copy is put in place is the lock's business (C05, C06)."]


def run(ctx):
    ctx.build()
    deep = {'MaxOps': 30} if ctx.thorough else {}
    ctx.model_check('FetchMC', workers=8, timeout=900, heap='8g', constants=dict(deep))
    ctx.model_check('FetchMC', workers=8, timeout=900, heap='8g', constants=dict(deep, Alone='FALSE'))
    n = 6000 if ctx.thorough else 600
    beh = ctx.generate('FetchMC', 'FetchGen', simulate=n, depth=60, limit=n)
    files = ctx.drive('fetch', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('FetchTrace', files, timeout=800)
