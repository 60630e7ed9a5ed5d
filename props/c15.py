"""C15: stations and the files that describe them."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Stations of up to four stands; every antenna has one FEE port and one cable, and ARX and digitizer inputs with at most one antenna each; spare ARX channels and digitizer inputs have antenna 0 or a number beyond the last antenna.",
               "The attenuation of the ASP is judged where the ASP channels of an antenna are those of its stand, as the wiring of the station files in the package is.",
               "Statements that name a cell outside of its table are not generated."]


def run(ctx):
    ctx.build()
    ctx.model_check('StationMC', workers=8, timeout=1500, heap='8g', constants={'MaxOps': 5} if ctx.thorough else None)
    n = 4000 if ctx.thorough else 240
    beh = ctx.generate('StationMC', 'StationGen', simulate=n, depth=40, limit=n)
    files = ctx.drive('station', {'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('StationTrace', files, timeout=800)
