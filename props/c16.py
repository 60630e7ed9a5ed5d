"""C16: dates, clocks and time scales."""
import re
import os
LEVEL = 'model_checking'
ASSUMPTIONS = ["Days from 1900 to 2100 without 1960 to 1971, when UTC seconds had no fixed length; the time scales other than UTC from 1972 to 2034.",
               "A Julian day of a day with a leap second is stretched, as astropy has it: times of that day and its neighbours are judged to a second.",
               "The text of a date is judged where its milliseconds do not round up to a whole minute."]


def tables():
    """The table of conversions and of leap seconds, from the specification itself."""
    s = open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'Almanac.tla')).read()
    conv = {m[0]: [m[1], m[2]] for m in re.findall(r'(\w+) \|-> <<"(\w+)", "(\w+)">>', s)}
    leaps = [int(x) for x in re.search(r'LeapTable == <<([^>]*)>>', s).group(1).split(',')]
    return conv, leaps


def run(ctx):
    ctx.build()
    ctx.model_check('AlmanacMC', workers=8, timeout=1500, heap='8g', constants={'MaxOps': 7} if ctx.thorough else None)
    n = 30000 if ctx.thorough else 2500
    beh = ctx.generate('AlmanacMC', 'AlmanacGen', simulate=n, depth=40, limit=n)
    conv, leaps = tables()
    files = ctx.drive('almanac', {'behaviours': beh, 'conv': conv, 'leaps': leaps}, shards=8, timeout=840)
    ctx.judge('AlmanacTrace', files, timeout=800)
