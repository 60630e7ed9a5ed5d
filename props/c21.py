"""C21: what values on the command line mean."""
LEVEL = 'model_checking'
ASSUMPTIONS = ["Lists of numbers and baselines: every text of up to five (thorough: six) of seven characters, and of four (five) of eight.",
               "Frequencies and wavelengths are compared to 1 kHz and 1 mm; 10 MHz is 10000 kHz."]


def run(ctx):
    ctx.build()
    d = 1 if ctx.thorough else 0
    ctx.model_check('ArgsMC', workers=8, timeout=800, heap='6g', constants={'MaxLen': 5 + d})
    texts = [b['text'] for b in ctx.generate('ArgsMC', 'ArgsText', constants={'MaxLen': 5 + d}, timeout=600)]
    texts += [b['text'] for b in ctx.generate('ArgsMC', 'ArgsText', constants={'MaxLen': 4 + d, 'Letters': 2}, outname='ArgsText2.gen', timeout=600)]
    n = 3000 if ctx.thorough else 500
    beh = ctx.generate('ArgsMC', 'ArgsGen', simulate=n, depth=44, limit=n)
    files = ctx.drive('args', {'texts': texts, 'behaviours': beh}, shards=8, timeout=840)
    ctx.judge('ArgsTrace', files, timeout=800)
