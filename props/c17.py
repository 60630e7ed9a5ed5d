"""C17: angles, positions and frames."""
import re
import os
LEVEL = 'model_checking'
ASSUMPTIONS = ["Whole hundredths of a second of arc; sines from a table of whole degrees, good to two in ten thousand.",
               "Instants from 2000 to 2019, where the Earth's orientation is in the tables that come with astropy.",
               "Rise, set and transit are judged where the object's highest and lowest altitude are more than two degrees from the horizon.",
               "Copies of an equatorial position keep its coordinates but not its frame, as its text says."]


def tables():
    s = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Sky.tla')).read()
    conv = {m[0]: [m[1], m[2]] for m in re.findall(r'(\w+) \|-> <<"(\w+)", "(\w+)">>', s)}
    kind = {'gal': 'gal', 'ecl': 'ecl', 'hrz': 'hrz'}
    return conv, {k: kind.get(v[0], 'equ') for k, v in conv.items()}


def run(ctx):
    ctx.build()
    ctx.model_check('SkyMC', workers=8, timeout=1500, heap='8g', constants={'MaxOps': 6} if ctx.thorough else None)
    n = 16000 if ctx.thorough else 1500
    beh = ctx.generate('SkyMC', 'SkyGen', simulate=n, depth=40, limit=n)
    conv, frm = tables()
    files = ctx.drive('sky', {'behaviours': beh, 'conv': conv, 'from': frm}, shards=8, timeout=840)
    ctx.judge('SkyTrace', files, timeout=800)
