"""What each property's check runs: stages of recorded executions (profile) checked by
a trace specification, and closed models of the specification."""

TRUST = ['TLC, the JVM and the TLA+ standard/community modules',
         'the harness dumps what the public accessors report (cross-checked by set/get events)',
         'prost (the wire primitives under prost-reflect) and rustc']


# profiles with a systematic sweep over the fixed schemas (harness/src/sweep.rs, poolsweep.rs) next to the random histories
SWEPT = {'W01', 'W02', 'W03', 'W04', 'W05', 'M01', 'M02', 'M03', 'M04', 'M05', 'J01', 'J02', 'J03', 'J04', 'T01', 'T02', 'T03', 'D05', 'D06', 'D08'}


def msg(profile, n, tags, **kw):
    return dict(profile=profile, n=n, module='MsgTrace', tags=tags, sweep=profile in SWEPT, **kw)


def pool(profile, n, tags, **kw):
    return dict(profile=profile, n=n, cmd='pool', module='PoolTrace', tags=tags, sweep=profile in SWEPT, **kw)


def rob(n, tags, **kw):
    return dict(profile='rob', n=n, cmd='rob', module='RobustTrace', tags=tags, **kw)


def play(tags, n=16):
    """contents reached by the closed model MsgMC, each looked at in every way, every n-th operation tried from it"""
    return dict(profile='small', model='MsgMC', n=n, module='MsgTrace', tags=tags)


def batches(tags, n=1, deep_n=8):
    """pools reached by the closed model PoolMC, every n-th batch added to a copy of each"""
    return dict(profile='universe', model='PoolMC', n=n, deep_n=deep_n, parts=1, module='PoolTrace', tags=tags)


ANY = r'.*'
# everything but the place named by a refusal
POOL = r'(?!add\.report).*'
PANIC = r'panic\..*|.*\.panic(\..*)?|crash|undefined|deep\..*'
CHECKS = {
    'W01': dict(stages=[msg('W01', 10000, ANY), play(r'enc\..*|dec\..*|same|crash')]),
    'W02': dict(stages=[msg('W02', 10000, ANY)]),
    'W03': dict(stages=[msg('W03', 10000, ANY)]),
    'W04': dict(stages=[msg('W04', 10000, ANY), play(r'enc\..*|dec\..*|merge\..*|same|crash')]),
    'W05': dict(stages=[msg('W05', 10000, ANY)]),
    'M01': dict(stages=[msg('M01', 10000, ANY), play(r'(set|get|mut|clear|take|list|drain|itermut|clearall|new|copy)(\..*)?|crash')]),
    'M02': dict(stages=[msg('M02', 10000, ANY), play(ANY)]),
    'M03': dict(stages=[msg('M03', 10000, ANY), play(ANY)]),
    'M04': dict(stages=[msg('M04', 10000, ANY)]),
    'M05': dict(stages=[msg('M05', 3000, ANY)]),
    'J01': dict(stages=[msg('J01', 9000, ANY)]),
    'J02': dict(stages=[msg('J02', 9000, ANY)]),
    'J03': dict(stages=[msg('J03', 9000, ANY)]),
    'J04': dict(stages=[msg('J04', 9000, ANY)]),
    'T01': dict(stages=[msg('T01', 8000, ANY)]),
    'T02': dict(stages=[msg('T02', 14000, ANY)]),
    'T03': dict(stages=[msg('T03', 8000, ANY)]),
    'R01': dict(stages=[msg('R01', 6000, PANIC), rob(4000, PANIC)]),
    'D01': dict(stages=[pool('D01', 1500, POOL), batches(POOL), rob(1500, r'add\.changed')]),
    'D02': dict(stages=[pool('D02', 1500, POOL), batches(POOL)]),
    'D03': dict(stages=[pool('D03', 2000, POOL), batches(POOL)]),
    'D04': dict(stages=[pool('D04', 2500, POOL)]),
    'D05': dict(stages=[pool('D05', 2500, POOL)]),
    'D06': dict(stages=[pool('D06', 2000, POOL)]),
    'D07': dict(stages=[dict(profile='D07', n=180, cmd='opt', module='OptTrace', tags=POOL), rob(1000, r'again\..*')]),
    'D08': dict(stages=[pool('D08', 600, r'add\.report.*|add\.panic|crash'), dict(profile='D07', n=60, cmd='opt', module='OptTrace', tags=r'add\.report.*')]),
    'G01': dict(stages=[dict(module='GlobalMC', cfg='GlobalMC.cfg', cfg_thorough='GlobalMCDeep.cfg'), dict(profile='G01', n=400, cmd='glob', module='GlobalTrace', tags=ANY, accept=True)]),
    'X01': dict(codegen=True, stages=[
        dict(profile='X01', n=9000, cmd='xrun', module='GenTrace', tags=ANY),
        dict(profile='X01a', n=2500, cmd='attrs', module='GenTrace', tags=ANY),
        pool('X01', 2, ANY)]),
}
for c in CHECKS.values():
    c.setdefault('level', 'model_checking')
    c.setdefault('assumptions', TRUST)
    if any('model' in st for st in c['stages']):
        c.setdefault('technique', 'TLA+ specification: closed model explored by TLC with the laws as invariants, every reachable state replayed on the real code; TLC validates the replays and further recorded traces against the specification')
