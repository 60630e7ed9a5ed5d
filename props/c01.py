"""C01: the reordering frame buffers."""
LEVEL = 'model_checking'
ASSUMPTIONS = [
    "Frames offered to a buffer carry identities the buffer was set up for.",
    "COR is driven with two stands through get_max_frames(), the class's extension point, instead of 256.",
]


def run(ctx):
    ctx.build()
    ctx.model_check('FrameBufferMC', 'FrameBufferMC', workers=6,
                    constants={'MaxPuts': 6, 'MaxOps': 9} if ctx.thorough else None, timeout=1500)
    beh = ctx.generate('FrameBufferMC', 'FrameBufferGen',
                       constants={'MaxOps': 5} if ctx.thorough else None, workers=4)
    beh += ctx.generate('FrameBufferMC', 'FrameBufferGen', simulate=4000 if ctx.thorough else 600, depth=15,
                        constants={'MaxOps': 14, 'MaxPuts': 12, 'NTimes': 5}, outname='sim.gen',
                        limit=20000 if ctx.thorough else 2000)
    files = ctx.drive('frame_buffer', {'behaviours': beh, 'gen_nseg': 2,
                                       'random': 6000 if ctx.thorough else 600}, shards=6, timeout=800)
    ctx.judge('FrameBufferTrace', files, timeout=800)
