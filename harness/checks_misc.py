"""Checks of the properties outside of the forest specification."""
from harness import machinecheck as mc


def FILES(ctx):
    """Number of files of recorded histories, each of them recorded by one process."""
    return 4 * mc.CPUS if ctx.thorough else mc.CPUS


def c09(ctx):
    path, n = mc.model(ctx, 'MCCache', 'cache', constants=dict(WHAT='quick'),
                       invariants=['Coherent', 'NoCache', 'Repeat', 'Fresh', 'Gain'])
    mc.replay(ctx, 'cache', path, edges=0 if ctx.thorough else 5000, walk=8)
    mc.traces(ctx, 'TraceCache', 'cache', count=200 if ctx.thorough else 90, files=FILES(ctx),
              length=80 if ctx.thorough else 60)


def c10(ctx):
    path, n = mc.model(ctx, 'MCFactory', 'factory',
                       invariants=['Own', 'FixedStay', 'Once'], properties=['Separate'])
    mc.replay(ctx, 'factory', path, edges=0 if ctx.thorough else 6000, walk=8)
    mc.traces(ctx, 'TraceFactory', 'factory', count=200 if ctx.thorough else 120, files=FILES(ctx),
              length=80 if ctx.thorough else 60)


def c11(ctx):
    path, n = mc.model(ctx, 'MCAlias', 'alias', constants=dict(WIDE=ctx.thorough),
                       invariants=['RoundTrip', 'BackTrip', 'Injective', 'BothIsChain', 'View'])
    mc.replay(ctx, 'alias', path, edges=0 if ctx.thorough else 4000, walk=8)
    mc.traces(ctx, 'TraceAlias', 'alias', count=400 if ctx.thorough else 110, files=FILES(ctx),
              length=60)


def c12(ctx):
    path, n = mc.model(ctx, 'MCEvents', 'events',
                       invariants=['Unique', 'OnlyKnown', 'Exact'], properties=['Separate'])
    mc.replay(ctx, 'events', path, edges=0 if ctx.thorough else 4000, walk=8)
    mc.traces(ctx, 'TraceEvents', 'events', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=80)


def c13(ctx):
    path, n = mc.model(ctx, 'MCEvAttr', 'evattr', constants=dict(DEPTH=2),
                       invariants=['Delivered', 'Scoped', 'Restored'], properties=['Separate'])
    mc.replay(ctx, 'evattr', path, edges=0 if ctx.thorough else 6000, walk=8)
    mc.traces(ctx, 'TraceEvAttr', 'evattr', count=400 if ctx.thorough else 100, files=FILES(ctx),
              length=80)


def c14(ctx):
    inv = ['OwnFirst', 'Sound', 'Complete', 'Nearest', 'NoFallback', 'Tree']
    path, n = mc.model(ctx, 'MCFallback', 'fallback', constants=dict(EMIT=True, SIZE=5),
                       invariants=inv)
    if ctx.thorough:
        mc.model(ctx, 'MCFallback', 'fallback', constants=dict(EMIT=False, SIZE=6),
                 invariants=inv, workers=8, heap='12g', timeout=3000)
    mc.replay(ctx, 'fallback', path, edges=0 if ctx.thorough else 2500, walk=6)
    mc.traces(ctx, 'TraceFallback', 'fallback', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=80)


def c15(ctx):
    inv = ['RoundTrip', 'ValueTrip', 'DocTrip']
    path, n = mc.model(ctx, 'MCSerial', 'serial', constants=dict(EMIT=True, MORE=0),
                       invariants=inv)
    if ctx.thorough:
        mc.model(ctx, 'MCSerial', 'serial', constants=dict(EMIT=False, MORE=1),
                 invariants=inv, workers=8, heap='12g', timeout=3000)
    mc.replay(ctx, 'serial', path, edges=0 if ctx.thorough else 2500, walk=6)
    mc.traces(ctx, 'TraceSerial', 'serial', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=60)


def c16(ctx):
    inv = ['Faithful', 'Unique']
    path, n = mc.model(ctx, 'MCCopy', 'copy', constants=dict(EMIT=True, MORE=0),
                       invariants=inv, properties=['Independent'])
    if ctx.thorough:
        mc.model(ctx, 'MCCopy', 'copy', constants=dict(EMIT=False, MORE=1),
                 invariants=inv, properties=['Independent'], workers=8, heap='12g', timeout=3000)
    mc.replay(ctx, 'copy', path, edges=0 if ctx.thorough else 2500, walk=6)
    mc.traces(ctx, 'TraceCopy', 'copy', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=60)


def c17(ctx):
    ctx.tlc('LockAlg', constants=dict(Threads={'t1', 't2', 't3'} if ctx.thorough else {'t1', 't2'},
                                      Trees={1, 2}, DEPTH=2),
            invariants=['Mutex', 'OneLock', 'Counts', 'Freed'], properties=['Progress'],
            workers=4, timeout=3000, heap='8g', label='algorithm')
    if not ctx.thorough:
        ctx.tlc('LockAlg', constants=dict(Threads={'t1', 't2', 't3'}, Trees={1}, DEPTH=2),
                invariants=['Mutex', 'OneLock', 'Counts', 'Freed'], workers=4,
                label='algorithm, 3 threads')
    inv = ['Mutex', 'Owner', 'NoLoss']
    path, n = mc.model(ctx, 'MCLock', 'lock', constants=dict(EMIT=True, THREADS=3, DEPTH=2),
                       invariants=inv)
    if ctx.thorough:
        mc.model(ctx, 'MCLock', 'lock', constants=dict(EMIT=False, THREADS=4, DEPTH=3),
                 invariants=inv, workers=8, heap='12g', timeout=3000)
    mc.replay(ctx, 'lock', path, edges=0 if ctx.thorough else 3500, walk=6)
    mc.traces(ctx, 'TraceLock', 'lock', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=60)


def c18(ctx):
    inv = ['RoundTrip', 'Complete', 'Keeps', 'Soft', 'Again']
    path, n = mc.model(ctx, 'MCCodec', 'codec', constants=dict(EMIT=True, MORE=0), timeout=150,
                       invariants=inv)
    if ctx.thorough:
        mc.model(ctx, 'MCCodec', 'codec', constants=dict(EMIT=False, MORE=1),
                 invariants=inv, workers=8, heap='12g', timeout=3000)
    mc.replay(ctx, 'codec', path, edges=0 if ctx.thorough else 2500, walk=3)
    mc.traces(ctx, 'TraceCodec', 'codec', count=400 if ctx.thorough else 60, files=FILES(ctx),
              length=60)


CHECKS = dict(C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17,
              C18=c18)
