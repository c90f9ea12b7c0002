"""C01-C08: the forest of mapping nodes (spec/Tree.tla)."""
import json

from harness import machinecheck as mc
from harness.treecheck import Graph, replay, traces

BASIC = {'set', 'del', 'detach', 'pop', 'popitem', 'clear', 'setdefault'}
INSERT = {'insfirst', 'inslast', 'insbefore', 'insafter', 'swap'}
VIEWS = ['q:keys@*', 'q:iter*', 'q:values@*', 'q:items@*', 'q:len@*', 'q:contains@*',
         'q:has_key@*', 'q:get*@*']

# configurations of the exhaustive model
GRAPHS = {
    # plain mappings, only nodes as values
    'map': dict(OPS=BASIC | {'update'}),
    'mapfault': dict(OPS=BASIC, FAULTS=True, PV=set()),
    'multi': dict(OPS=BASIC, PV=set(), TREE=False, NN={'n0', 'n1', 'n2'}, HOSTS={'n0', 'n1'}),
    # any values, several keys
    'any': dict(Ford=False, Fval=False, NN={'n0', 'n1'}, KK={'k0', 'k1', 'k2'}, MAXKIDS=2,
                PV={'p0'}, OPS=BASIC),
    'anyord': dict(Fval=False, NN={'n0'}, KK={'k0', 'k1', 'k2', 'k3'}, MAXKIDS=3,
                   PV={'p0', 'p1'}, OPS=BASIC),
    # ordering without references
    'order': dict(Fins=True, RENAMES={'k0', 'k1'}, OPS=BASIC | INSERT | {'rename'}, PV=set()),
    'order3': dict(Fins=True, Fref=True, NN={'n0', 'n1', 'n2', 'n3'}, HOSTS={'n0'},
                   KK={'k0', 'k1', 'k2'}, RENAMES={'k0', 'k1', 'k2'}, PV=set(), MAXKIDS=3,
                   UU={'u0', 'u1', 'u2', 'u3'}, OPS=INSERT | {'set', 'detach'}),
    # references: everything, uuid assignment
    'ref': dict(Fins=True, Fref=True, RENAMES={'k0', 'k1'}, OPS=BASIC | INSERT | {'rename'},
                TREE=False),
    'refany': dict(Fref=True, Fval=False, PV={'p0'}, HOSTS={'n0', 'n1'},
                   OPS=BASIC - {'popitem', 'pop'}),
    'uuid': dict(Fref=True, Ford=False, PV=set(), KK={'k0', 'k1'}, TREE=False, HOSTS={'n0', 'n1'},
                 OPS={'set', 'del', 'setuuid', 'clear', 'detach', 'pop'}),
    'reffault': dict(Fins=True, Fref=True, RENAMES={'k0', 'k1'}, FAULTS=True, PV=set(),
                     OPS=BASIC | INSERT | {'rename'}, TREE=False),
    # lifecycle
    'life': dict(Fins=True, Fref=True, Flife=True, RENAMES={'k0', 'k1'}, TREE=False,
                 OPS=BASIC | INSERT | {'rename', 'newbad'}),
    'lifeatt': dict(Flife=True, Fval=False, Fsp=True, Ford=False, NN={'n0', 'n1', 'a0'},
                    ATT={'a0'}, SK={'__attrs__'}, PV={'p0'}, OPS=BASIC),
    # nodespaces and attributes
    'spaces': dict(Fsp=True, Fval=True, Fref=True, Fins=True, NN={'n0', 'n1', 'n2'},
                   SK={'__s__'}, PV=set(), KK={'k0'}, RENAMES={'k0', '__s__'},
                   OPS=BASIC | {'insfirst', 'inslast', 'rename'}),
    'spaces2': dict(Fsp=True, Fval=False, Ford=False, NN={'n0', 'n1', 'a0', 'a1'},
                    ATT={'a0', 'a1'}, SK={'__attrs__', '__s__'}, PV={'p0'}, KK={'k0'},
                    FROZEN={'p0'},
                    OPS=BASIC),
}


def graph(ctx, label):
    return Graph(ctx, label, **GRAPHS[label])


def S(keys='simple', vals='plain', uuids='plain', perm=None, spaces=()):
    d = dict(keys=keys, vals=vals, uuids=uuids)
    if perm:
        d['perm'] = perm
    if spaces:
        d['spaces'] = sorted(spaces)
    return d


def run_graphs(ctx, spec, clauses, walks=4):
    """spec: list of (label, [(profile, skin)...])"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        graphs = list(ex.map(lambda e: graph(ctx, e[0]), spec))
    for (label, jobs), g in zip(spec, graphs):
        jobs = [(p, dict(s, spaces=sorted(g.c['SK'])) if g.c['SK'] else s) for p, s in jobs]
        replay(ctx, g, jobs, clauses, walks=40 if ctx.thorough else walks,
               sample=None if ctx.thorough else 26000)


ASSUME = [
    'single threaded use of a tree',
    'containment without cycles; nodes already placed in another referencing tree are '
    'removed from it before they are added',
    'the parent of a node that is not contained anywhere is not specified',
    'error types: KeyError and ValueError are not told apart for insertions',
]


def c01(ctx):
    cl = ['name@*', 'par@*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('map', [('ordered', S()), ('ordered', S('odd', 'falsy'))]),
        ('ref', [('node', S()), ('ordref', S('types', perm=[0, 1, 3]))]),
        ('spaces', [('node', S('words'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'full', ['node', 'attributed', 'lifefull', 'lifein'], cl, faults=False,
           count=120 if big else 20, parts=8 if big else 4)
    traces(ctx, 'plain', ['base', 'ordered', 'order+base', 'abstract', 'spaces', 'life',
                          'ordref+ref', 'node*', 'ordered*'], cl, faults=True,
           count=120 if big else 20, parts=8 if big else 4)
    # children made by factories

    def lost(out):
        return 'not located' in json.dumps(out)
    path, n = mc.model(ctx, 'MCFactory', 'factory', invariants=['Own'])
    mc.replay(ctx, 'factory', path, edges=0 if big else 1500, walk=8, only=lost)
    mc.traces(ctx, 'TraceFactory', 'factory', count=100 if big else 10, length=60, only=lost)


def c02(ctx):
    cl = ['q:path@*', 'q:root@*', 'q:home@*', 'q:walk@*', 'q:acquire@*', 'q:filtered@*',
          'q:repr@*', 'name@*', 'par@*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('map', [('ordered', S()), ('ordered', S('odd')), ('ordered', S('words')),
                 ('ordered', S('sort')), ('ordered~', S()), ('ordered', S('blank'))]),
        ('any', [('spaces', S('simple', 'falsy')), ('base*', S('simple', 'weird')),
                 ('abstract', S('types', 'mixed')), ('base*', S('odd', 'mixed'))]),
        ('spaces', [('node', S())]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'deep', ['node', 'ordered+base', 'base', 'node~', 'abstract', 'spaces', 'ref',
                         'ordered*', 'lifefull'], cl, count=150 if big else 24,
           parts=8 if big else 4, length=80 if big else 50)


def c03(ctx):
    cl = ['kids@*', 'order@set*', 'order@setdefault*', 'order@update*', 'order@del*',
          'order@pop*', 'accept@pop*', 'accept@del*', 'accept@detach*', 'reject@set*',
          'reject@update*', 'reject@setdefault*', 'reject@del*', 'reject@pop*',
          'reject@clear*', 'reject@detach*', 'result@*', 'errclass@*'] + VIEWS
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('any', [('base*', S('types', 'falsy')), ('spaces', S('odd', 'weird')),
                 ('abstract', S('simple', 'mixed')), ('base*', S('words', 'plain'))]),
        ('anyord', [('ordered*', S('types', 'mixed')), ('order2', S('odd', 'falsy')),
                    ('ordered*', S('simple', 'weird')), ('order2', S('sort', 'plain'))]),
        ('map', [('ordered', S()), ('order', S('types')), ('gattr', S('simple'))]),
        ('ref', [('node', S('odd')), ('node', S('blank'))]),
        ('lifeatt', [('life', S('odd', 'falsy'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'map', ['base', 'ordered', 'uni', 'gattr', 'gattr', 'base*', 'ordered*', 'node*', 'abstract', 'order2',
                        'spaces', 'life', 'ref*', 'lifefull*'], cl,
           count=150 if big else 22, parts=8 if big else 4)


def c04(ctx):
    cl = ['fail:*', 'after:*', 'accept@*']
    ctx.assumptions = ASSUME + ['one backend fault at a time']
    run_graphs(ctx, [
        ('reffault', [('node!', S()), ('ordref!', S('types')), ('lifefull!', S('odd')),
                      ('lifein!', S())]),
        ('mapfault', [('ordered!', S()), ('lifeord!', S('odd'))]),
        ('ref', [('node', S('words')), ('lifefull', S())]),
        ('uuid', [('ref!', S('odd', 'plain', 'nil'))]),
        ('spaces2', [('spaces', S('simple', 'falsy'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'fault', ['node', 'base', 'ordered', 'order', 'ordref', 'lifefull', 'lifein',
                          'life', 'spaces', 'node*', 'ref', 'abstract'], cl,
           faults=True, count=150 if big else 24, parts=8 if big else 4)


def c05(ctx):
    cl = ['order@*', 'kids@ins*', 'kids@swap*', 'accept@ins*', 'accept@swap*', 'reject@ins*',
          'reject@swap*', 'q:rkeys@*', 'q:keys@*', 'q:iter*', 'q:values@*', 'q:items@*',
          'kids@set*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('order', [('order', S('odd')), ('order', S('types')), ('order!', S())]),
        ('order3', [('ordref', S('simple')), ('node', S('odd')), ('lifein', S('words'))]),
        ('ref', [('node', S()), ('attributed', S('sort'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'order', ['order', 'node', 'order2', 'ordref', 'lifeord', 'attributed',
                          'ordref*', 'lifefull'], cl, count=150 if big else 24,
           parts=8 if big else 4)


def c06(ctx):
    cl = ['index@*', 'uuid@*', 'q:node@*', 'q:indexed@*', 'q:table@*', 'accept@set*', 'accept@ins*',
          'accept@update*', 'reject@set*', 'reject@ins*', 'reject@update*', 'reject@detach*',
          'reject@del*', 'reject@pop*', 'reject@clear*', 'result@detach*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('uuid', [('ref', S('simple', 'plain', 'plain')), ('ref', S('types', 'plain', 'nil')),
                  ('ref!', S('odd', 'plain', 'big'))]),
        ('ref', [('node', S()), ('lifein', S('odd', 'plain', 'nil'))]),
        ('order3', [('ordref~', S())]),
        ('refany', [('ordref*', S()), ('node*', S('odd', 'mixed'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'uuid', ['ref', 'ordref', 'node~', 'lifefull', 'node*', 'ordref+ref', 'lifein'],
           cl, count=150 if big else 24, parts=8 if big else 4)
    traces(ctx, 'uuidfault', ['ref', 'ordref', 'node'], cl, faults=True,
           count=100 if big else 12, parts=8 if big else 2)


def c07(ctx):
    cl = ['events@*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('life', [('lifefull', S()), ('lifein', S('odd')), ('lifefull!', S('words'))]),
        ('lifeatt', [('life', S()), ('life', S('odd', 'falsy'))]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'life', ['life', 'lifefull', 'lifein', 'lifeord', 'lifeord+order',
                         'life+spaces', 'lifefull*'], cl, count=150 if big else 21,
           parts=8 if big else 4)
    traces(ctx, 'lifefault', ['life', 'lifefull', 'lifein', 'lifeord'], cl, faults=True,
           count=100 if big else 12, parts=8 if big else 2)


def c08(ctx):
    cl = ['spc@*', 'q:space@*', 'q:spaces@*', 'q:attrs@*', '*@*#sp', 'kids@attrs*']
    ctx.assumptions = ASSUME
    run_graphs(ctx, [
        ('spaces', [('node', S('under')), ('attributed', S('odd'))]),
        ('spaces2', [('spaces', S('simple', 'falsy')), ('spaces', S('under', 'mixed'))]),
        ('lifeatt', [('life', S())]),
    ], cl)
    big = ctx.thorough
    traces(ctx, 'spaces', ['node', 'attributed', 'spaces', 'aattr', 'life', 'lifefull', 'life+spaces',
                           'node*'], cl, count=150 if big else 28, parts=8 if big else 4)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08)
