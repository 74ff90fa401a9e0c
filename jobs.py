"""Job table: which harness, bounds and source variant decide which property."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
QUICK_DEADLINE = 420
THOROUGH_DEADLINE = 3000


class Job:
    def __init__(self, name, harness, defs='', variant='src', time=60, thorough=False, quick_only=False, reach=(), opts='', rdefs='', src=None, validate=12):
        self.name, self.harness, self.defs, self.variant, self.time = name, harness, defs, variant, time
        self.thorough, self.quick_only, self.reach, self.opts, self.rdefs, self.src, self.validate = thorough, quick_only, reach, opts, rdefs, src, validate
        self.defs = (defs + ' ' + rdefs).strip()


JOBS = {}
ASSUMPTIONS = [
    'storage is page-granular: power is lost before a page write or erase, never in the middle of one; a failed operation has no effect (a failed read scribbles over the buffer)',
    'no storage operation fails during recovery itself, except in P18 (opening a file) and P30 (every operation)',
    'keys are unsigned little-endian integers of keySize bytes and the comparator orders them that way (P26 checks the shipped comparators)',
    'the memory allocator does not fail',
    'float results on symbolic operands are unconstrained (over-approximation); a counterexample that depends on them is re-solved with IEEE semantics and replayed natively; AVG is checked up to congruence of division',
    'long double interpolation of the spline is treated as exact rational arithmetic',
    'databases that ever wrote more than 2^31 pages or more than 4 GiB of variable data are outside the bounds',
    'KSYM, KC and KCONC jobs fix some or all keys (the data stays arbitrary)',
]


def both(pid, name, harness, defs='', **kw):
    """Register a job for the src tree and for the single-file distribution."""
    for v in ('src', 'dist'):
        JOBS.setdefault(pid, []).append(Job('%s-%s' % (name, v), harness, defs, variant=v, **kw))


def one(pid, name, harness, defs='', variant='src', **kw):
    JOBS.setdefault(pid, []).append(Job(name, harness, defs, variant=variant, **kw))


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        return {k['id']: k for k in json.load(open(p))['findings']}
    except FileNotFoundError:
        return {}


def bounds(pid):
    """The bounds of a property: the shapes of its jobs (macros explained in DESIGN.md)."""
    return sorted(set('%s: %s' % (j.harness, j.defs) for j in JOBS[pid]))


both('P01', 'get7', 'h_get', '-DN=7', reach=('present', 'absent'))
both('P01', 'get12', 'h_get', '-DN=12', reach=('present', 'absent'))
both('P01', 'getfl', 'h_get', '-DN=7 -DFLM=0x2a', reach=('present', 'absent','flush'))
both('P01', 'getbin', 'h_get', '-DN=10 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH -DFLM=0x10', reach=('present', 'absent'))
both('P01', 'getk8', 'h_get', '-DN=8 -DKS=8 -DPGS=44', reach=('present', 'absent'))
both('P01', 'getk2', 'h_get', '-DN=9 -DKS=2 -DDS=2 -DFLM=0x10', reach=('present', 'absent'))
both('P01', 'getidx', 'h_get', '-DN=7 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN)" -DPGS=48 -DDSYM=0x25 -DFLM=0x10', reach=('present', 'absent'))
both('P01', 'page7', 'h_get', '-DN=8 -DDS=1 -DPGS=43 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('present', 'absent'))
both('P01', 'page9', 'h_get', '-DN=9 -DDS=1 -DPGS=53', reach=('present', 'absent'))
for w in (8, 16, 64):
    both('P06', 'bm%d' % w, 'h_bitmap', '-DW=%d' % w, reach=('update', 'absent', 'both', 'lo', 'hi', 'none', 'outside'), time=90)
IDX = '-DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"'
both('P04', 'scan', 'h_iter', '-DN=8 -DFLM=0x10', reach=('some', 'flush'))
both('P04', 'minkey', 'h_iter', '-DN=10 -DFIL=1', reach=('some', 'none'))
both('P04', 'maxkey', 'h_iter', '-DN=8 -DFIL=2 -DFLM=0x40', reach=('some', 'none'))
both('P04', 'keys', 'h_iter', '-DN=7 -DFIL=3', reach=('some', 'none'))
both('P04', 'data', 'h_iter', '-DN=5 -DFIL=12', reach=('some', 'none'))
both('P04', 'mixed', 'h_iter', '-DN=4 -DFIL=15 -DPGS=22', reach=('some', 'none'))
both('P04', 'minbin', 'h_iter', '-DN=8 -DFIL=1 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('some', 'none'))
both('P05', 'idx', 'h_iter', '-DN=6 -DFIL=12 -DPGS=32 -DNI=4 -DDSYM=0x2b -DFLM=0x8 '+IDX, time=120, reach=('some', 'none'))
both('P05', 'idxkey', 'h_iter', '-DN=6 -DFIL=5 -DPGS=32 -DNI=4 '+IDX, reach=('some', 'none'))
IDXM = '-DNI=4 -DBMS=5 -DPGS=27 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"'
both('P05', 'idxm', 'h_iter', '-DN=5 -DFIL=4 -DFLM=0x4 '+IDXM, reach=('some', 'none', 'flush'))
both('P05', 'idxmwrap', 'h_iter', '-DWRAP -DKCONC -DN=14 -DFIL=12 -DND=16 -DDSYM=0x2202 -DFLALL=0x3fff '+IDXM, reach=('some', 'none'))
both('P02', 'ord', 'h_order', '-DN=6', reach=('accepted', 'refused'))
both('P02', 'ordfl', 'h_order', '-DN=5 -DPGS=24 -DFLM=0x7', reach=('accepted', 'refused', 'flush'))
both('P02', 'ordre', 'h_order', '-DN=6 -DPGS=24 -DREM=0x1c -DFREE=3', reach=('accepted', 'refused', 'restart'))
both('P02', 'ordwrapfl', 'h_order', '-DN=7 -DPGS=24 -DND=4 -DFREE=5 -DFLM=0x7c -DFLALL=3', reach=('accepted', 'refused', 'flush'))
both('P02', 'ordwrap', 'h_order', '-DN=8 -DPGS=16 -DND=4 -DFREE=5', reach=('accepted', 'refused'))
both('P03', 'wrap', 'h_wrap', '-DN=12 -DPGS=22 -DND=4', reach=('evicted',))
both('P03', 'wrapfl', 'h_wrap', '-DN=10 -DPGS=22 -DND=4 -DFLM=0x92', reach=('evicted',))
both('P03', 'wrap1', 'h_wrap', '-DN=9 -DPGS=22 -DND=2 -DES=1', reach=('evicted',))
both('P03', 'wrapbin', 'h_wrap', '-DN=14 -DPGS=22 -DND=4 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('evicted',))
both('P03', 'wrapnc', 'h_wrap', '-DN=12 -DPGS=22 -DND=4 -DPARAMS=EMBEDDB_DISABLE_SPLINE_CLEAN', reach=('evicted',))
both('P14', 'e1', 'h_spline', '-DNP=5', reach=('bend', 'inner', 'first'))
both('P14', 'e1k8', 'h_spline', '-DNP=4 -DKS=8', reach=('inner', 'first'))
both('P14', 'e2', 'h_spline', '-DNP=6 -DPERR=2', reach=('inner', 'first'))
both('P14', 'e0', 'h_spline', '-DNP=5 -DPERR=0', reach=('inner', 'first'))
both('P14', 'er0', 'h_spline', '-DNP=7 -DSPLP=4 -DPERR=0', reach=('bend', 'inner', 'first', 'dropped'))
both('P14', 'gap', 'h_spline', '-DNP=9 -DSPLP=4 -DGAP=100', reach=('bend', 'inner', 'first', 'dropped'))
both('P14', 'gap2', 'h_spline', '-DNP=10 -DSPLP=4 -DPERR=0 -DGAP=1000 -DKS=8', reach=('bend', 'inner', 'first', 'dropped'))
both('P14', 'p64k', 'h_spline', '-DNP=5 -DSTART=65533', reach=('bend', 'inner', 'first'))
both('P14', 'p64kgap', 'h_spline', '-DNP=8 -DSPLP=8 -DGAP=100 -DSTART=65531', reach=('bend', 'inner', 'first'))
both('P14', 'p256', 'h_spline', '-DNP=8 -DSPLP=8 -DGAP=100 -DPERR=2 -DSTART=252', reach=('inner', 'first'))
both('P14', 'er', 'h_spline', '-DNP=7 -DSPLP=4', reach=('bend', 'inner', 'first'))
both('P15', 'clean', 'h_spline', '-DNP=7 -DCLEAN=3', reach=('bend', 'inner', 'first'))
both('P15', 'clean4', 'h_spline', '-DNP=8 -DCLEAN=4 -DSPLP=4', reach=('bend', 'inner', 'first'))
both('P15', 'ring', 'h_ring', '-DSPLP=5 -DPERR=0 -DTAIL=2', reach=('around', 'found'))
both('P15', 'ring2', 'h_ring', '-DSPLP=5 -DESZ=2 -DPERR=0 -DTAIL=2', reach=('around', 'found'))
both('P15', 'ring1', 'h_ring', '-DSPLP=4 -DNP=24 -DRUN=3 -DTAIL=2', reach=('around', 'found'))
both('P15', 'ringclean', 'h_ring', '-DSPLP=5 -DCLEAN=3 -DPERR=0 -DTAIL=2', reach=('around', 'found'))
both('P15', 'ringclean8', 'h_ring', '-DSPLP=8 -DCLEAN=5 -DNP=22 -DKS=8 -DPERR=0 -DTAIL=1', reach=('around', 'found'))
both('P10', 'rec', 'h_recover', '-DN=6 -DNMIN=0 -DPGS=22 -DND=8 -DM=2', reach=('restored', 'flushed'))
both('P10', 'recwrap', 'h_recover', '-DN=10 -DNMIN=8 -DPGS=22 -DND=4 -DM=1 -DENDFL=2', reach=('restored', 'evicted'))
both('P10', 'recwrap0', 'h_recover', '-DN=10 -DNMIN=8 -DPGS=22 -DND=4 -DM=1 -DENDFL=2 -DERK=0', reach=('restored', 'evicted'))
both('P10', 'recwrap2', 'h_recover', '-DN=10 -DNMIN=8 -DPGS=22 -DND=4 -DM=1 -DENDFL=2 -DERK=2', reach=('restored', 'evicted'))
both('P10', 'recfl', 'h_recover', '-DN=4 -DPGS=22 -DND=4 -DFLM=0x7 -DM=3 -DFLM2=0x6 -DRE2=1', reach=('restored', 'twice'))
both('P10', 'recbin', 'h_recover', '-DN=12 -DNMIN=3 -DPGS=22 -DND=4 -DM=4 -DRE2=1 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('restored', 'evicted', 'twice'))
both('P07', 'var', 'h_var', '-DN=4 -DLENS=3,20 -DFLM=0x2 -DGETM=0x2', reach=('data', 'null', 'flush'))
both('P07', 'varlong', 'h_var', '-DN=3 -DLENS=0,16,20,45 -DFLM=0x1 -DNULLS=0', reach=('data',))
both('P07', 'varplain', 'h_var', '-DN=4 -DLENS=5 -DNULLS=3 -DGETM=0x6', reach=('data', 'null', 'plain'))
both('P07', 'varsym', 'h_var', '-DN=4 -DLENS=7 -DKSYM=1 -DFLM=0x4', reach=('data', 'null'))
both('P07', 'variter', 'h_var', '-DN=5 -DLENS=3,20 -DFLM=0x2 -DMODE=1', reach=('data', 'null', 'iter'))
both('P08', 'chunk', 'h_var', '-DN=2 -DLENS=3,16,20,21,24,45 -DNULLS=0 -DCHMAX=25 -DMODE=0', reach=('data',))
both('P08', 'two', 'h_var', '-DN=3 -DLENS=17,30 -DNULLS=0 -DCHMAX=9 -DMODE=2 -DFLM=0x1', reach=('two',))
both('P08', 'wrap3', 'h_var', '-DN=4 -DKSYM=3 -DLENS=50,60 -DNV=8 -DNULLS=0 -DCHMAX=60 -DMODE=0', reach=('data', 'overwritten'))
both('P09', 'evict', 'h_var', '-DN=7 -DLENS=3,20,30 -DNV=4 -DNULLS=0', reach=('data', 'overwritten'))
both('P09', 'evictnull', 'h_var', '-DN=9 -DLENS=20 -DNV=4 -DNULLS=1', reach=('data', 'overwritten', 'null'))
both('P09', 'evictget', 'h_var', '-DN=7 -DLENS=20,30 -DNV=4 -DNULLS=0 -DGETM=0x74', reach=('data', 'overwritten'))
both('P09', 'evictit', 'h_var', '-DN=7 -DLENS=20,30 -DNV=4 -DNULLS=0 -DMODE=1 -DFLM=0x4', reach=('data', 'overwritten', 'iter'))
both('P12', 'varre', 'h_var', '-DN=4 -DLENS=3,20 -DREM=0xf', reach=('data', 'null', 'restart'))
both('P12', 'varrewrap', 'h_var', '-DN=7 -DLENS=20,30 -DNV=4 -DNULLS=0 -DREM=0x38', reach=('data', 'overwritten', 'restart'))
both('P12', 'varreit', 'h_var', '-DN=7 -DLENS=30 -DNV=4 -DNULLS=1 -DREM=0x28 -DMODE=1', reach=('data', 'restart', 'iter'))
both('P32', 'crash', 'h_crash', '-DN=5 -DPGS=22 -DND=8 -DFLM=0x5', reach=('crashed', 'poweroff'))
both('P32', 'crashwrap', 'h_crash', '-DN=11 -DC0=7 -DPGS=22 -DND=4 -DM=3', reach=('crashed', 'evicted'))
both('P32', 'crashwrap0', 'h_crash', '-DN=11 -DC0=7 -DPGS=22 -DND=4 -DM=3 -DERK=0', reach=('crashed', 'evicted'))
both('P32', 'crash2', 'h_crash', '-DN=11 -DC0=8 -DPGS=22 -DND=4 -DM=4 -DCRASHES=2', reach=('crashed', 'evicted'))
RLC = '-DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY'
both('P13', 'rlc', 'h_crash', '-DN=5 -DPGS=22 -DND=8 '+RLC, reach=('crashed', 'poweroff'))
both('P13', 'rlcfl', 'h_crash', '-DN=5 -DPGS=22 -DND=8 -DFLM=0x7 '+RLC, reach=('crashed', 'flush'))
both('P13', 'rlcwrap', 'h_crash', '-DN=18 -DC0=12 -DPGS=22 -DND=8 '+RLC, reach=('crashed', 'evicted'))
both('P13', 'rlcwrap0', 'h_crash', '-DN=18 -DC0=12 -DPGS=22 -DND=8 -DERK=0 '+RLC, reach=('crashed', 'evicted'))
both('P13', 'rlc2', 'h_crash', '-DN=6 -DPGS=22 -DND=8 -DCRASHES=2 -DM=3 '+RLC, reach=('crashed', 'poweroff'))
both('P13', 'rlce1', 'h_crash', '-DN=9 -DC0=4 -DPGS=22 -DND=5 -DES=1 -DFLM=0x4 '+RLC, reach=('crashed', 'flush'))
both('P13', 'rlcbin', 'h_crash', '-DN=16 -DC0=11 -DPGS=22 -DND=8 -DPARAMS="(EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('crashed', 'evicted'))
both('P13', 'rlcp4', 'h_crash', '-DN=11 -DC0=5 -DPGS=38 -DND=8 -DFLM=0x80 '+RLC, reach=('crashed', 'flush'))

IDXP = '-DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)" -DBMS=5 -DPGS=27'
both('P11', 'idx', 'h_crash', '-DN=6 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DFLM=0x4 -DC0=2 '+IDXP, reach=('crashed', 'poweroff', 'flush', 'query', 'match'))
both('P11', 'idxwrap', 'h_crash', '-DN=9 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=8 -DFLM=0x1f -DC0=6 -DM=1 '+IDXP, reach=('crashed', 'idxwrap', 'query', 'match'))
both('P11', 'idxwrap0', 'h_crash', '-DN=9 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DFLM=0x1f -DC0=6 -DM=1 -DERK=0 '+IDXP, reach=('crashed', 'idxwrap', 'query', 'match'))
both('P11', 'idxfull', 'h_crash', '-DN=8 -DNMIN=6 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DC0=5 -DM=1 -DBMS=11 -DPGS=33 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('crashed', 'query', 'match'))

both('P19', 'put', 'h_io', '-DENDGET=1 -DN=6 -DPGS=22 -DND=8 -DFLM=0x5 -DREOPEN=1', reach=('putfail', 'flushfail', 'failed'))
both('P19', 'wrap', 'h_io', '-DENDGET=1 -DN=10 -DF0=6 -DPGS=22 -DND=4 -DREOPEN=1', reach=('putfail', 'failed', 'evicted'))
both('P19', 'wrap2', 'h_io', '-DN=10 -DF0=6 -DFAILS=2 -DPGS=22 -DND=4', reach=('putfail', 'failed', 'evicted'))
both('P19', 'read', 'h_io', '-DN=6 -DPGS=22 -DND=8 -DFLM=0x8 -DGETM=0x28 -DFMASK=2', reach=('getfail', 'failed'))
both('P19', 'rlc', 'h_io', '-DENDGET=1 -DN=6 -DPGS=22 -DND=8 -DFLM=0x4 -DREOPEN=1 '+RLC, reach=('putfail', 'maybe', 'flushfail', 'failed'))
both('P19', 'rlcwrap', 'h_io', '-DN=18 -DF0=12 -DPGS=22 -DND=8 '+RLC, reach=('putfail', 'maybe', 'evicted', 'failed'))
both('P19', 'idx', 'h_io', '-DN=7 -DND=8 -DNI=4 -DKC -DDSYM=0x10 -DM=1 -DQUERY=4 -DFLM=0x14 -DREOPEN=1 '+IDXP, reach=('putfail', 'flushfail', 'failed', 'match'))
both('P19', 'idxwrap', 'h_io', '-DN=9 -DF0=5 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DFLM=0x1f '+IDXP, reach=('putfail', 'failed', 'match'))
both('P19', 'var', 'h_io', '-DN=3 -DLENS=3,45 -DNV=24 -DM=1 -DFLM=0x2 -DPARAMS=EMBEDDB_USE_VDATA', reach=('putfail', 'flushfail', 'failed'))
both('P19', 'varre', 'h_io', '-DN=4 -DLENS=20 -DNV=16 -DM=1 -DFLM=0x4 -DREOPEN=1 -DFAILS=2 -DPARAMS=EMBEDDB_USE_VDATA', reach=('putfail', 'failed'))
both('P19', 'varread', 'h_io', '-DN=3 -DLENS=3,30 -DFLM=0x2 -DGETM=0x4 -DFMASK=2 -DPARAMS=EMBEDDB_USE_VDATA', reach=('getfail', 'failed'))

both('P18', 'plain', 'h_init', '', reach=('accepted', 'refused'))
both('P18', 'idx', 'h_init', '-DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('accepted', 'refused'))
both('P18', 'var', 'h_init', '-DPARAMS=EMBEDDB_USE_VDATA', reach=('accepted', 'refused'))
both('P18', 'all', 'h_init', '-DPGS_=90 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_VDATA|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('accepted', 'refused'))
both('P18', 'rlcbin', 'h_init', '-DPARAMS="(EMBEDDB_USE_BMAP|EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('accepted', 'refused'))
both('P18', 'open', 'h_init', '-DOPENFAIL=1 -DPGS_=40 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_VDATA)"', reach=('accepted', 'refused', 'openfail'))
both('P18', 'lay', 'h_init', '-DLAYOUT=1 -DPGS_=7,19,40,97', reach=('accepted', 'refused'))
both('P18', 'layidx', 'h_init', '-DLAYOUT=1 -DPGS_=19,40 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('accepted', 'refused'))
both('P18', 'layvar', 'h_init', '-DLAYOUT=1 -DPGS_=30,64 -DPARAMS="(EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_VDATA)"', reach=('accepted', 'refused'))
both('P01', 'big', 'h_big', '-DN=180 -DKS=2 -DDS=1 -DPGS=456 -DND=4', reach=('present', 'absent', 'restart'))
both('P01', 'big300', 'h_big', '-DN=560 -DKS=2 -DDS=1 -DPGS=916 -DND=4 -DGAP=2', reach=('present', 'absent', 'restart'))
both('P10', 'big', 'h_big', '-DN=310 -DKS=2 -DDS=1 -DPGS=456 -DND=4 -DGAP=2 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('present', 'absent', 'restart'))
both('P10', 'reck8', 'h_recover', '-DN=4 -DNMIN=3 -DKS=8 -DDS=1 -DPGS=24 -DND=8 -DM=2', reach=('restored',))

QD = '-DPGS=72 -DND=4 '
both('P21', 'sel', 'h_query', '-DMODE=1 -DN=2 '+QD, reach=('sel',), opts='--bv')
both('P21', 'selwide', 'h_query', '-DMODE=1 -DN=1 -DSZS=9,16 -DC2=2 '+QD, reach=('sel',), opts='--bv')
both('P21', 'selfil', 'h_query', '-DMODE=1 -DKS=2 -DN=3 -DFIL=1 -DSZS=2 -DC2=-1 -DFLM=0x2 '+QD, reach=('sel',), opts='--bv')
both('P22', 'proj', 'h_query', '-DMODE=2 -DN=2 -DC2=-3 '+QD, reach=('proj',), opts='--bv')
both('P22', 'projfil', 'h_query', '-DMODE=2 -DN=3 -DFIL=1 -DSZS=5 -DFLM=0x2 '+QD, reach=('proj',), opts='--bv')
both('P22', 'proj7', 'h_query', '-DMODE=2 -DN=1 -DSZS=3 -DC2=-2 -DCX=-7,1,4,-9 '+QD, reach=('proj',), opts='--bv')
both('P23', 'sum', 'h_query', '-DMODE=3 -DAGN=2 -DN=4 '+QD, reach=('agg', 'groups'), opts='--bv')
both('P23', 'agg', 'h_query', '-DMODE=3 -DN=2 '+QD, reach=('agg', 'groups'), opts='--bv')
both('P23', 'aggfil', 'h_query', '-DMODE=3 -DKS=2 -DN=3 -DSZS=1,2 -DFIL=1 -DFLM=0x2 '+QD, reach=('agg', 'groups'), opts='--bv')
both('P23', 'avg', 'h_query', '-DMODE=4 -DN=3 '+QD, reach=('avg',), opts='--fpcong --bv')
both('P23', 'pipe', 'h_query', '-DMODE=6 -DKS=2 -DN=2 -DSZS=1,5 -DAGN=2 '+QD, reach=('agg', 'groups'), opts='--bv')
both('P24', 'join', 'h_query', '-DMODE=5 -DKS=2 -DN=3 -DNB=3 -DSZS=3 '+QD, reach=('join',), opts='--bv')
both('P24', 'join4', 'h_query', '-DMODE=5 -DKS=4 -DN=2 -DNB=2 -DSZS=3 '+QD, reach=('join',), opts='--bv')
both('P24', 'joinfil', 'h_query', '-DMODE=5 -DKS=2 -DN=3 -DNB=2 -DFIL=2 -DSZS=2 -DFLM=0x2 '+QD, reach=('join',), opts='--bv')
both('P24', 'joinsel', 'h_query', '-DMODE=7 -DKS=2 -DN=3 -DNB=2 -DSZS=1 '+QD, reach=('join',), opts='--bv')
both('P25', 'schema', 'h_schema', '-DNC=4', reach=('created', 'refused'), opts='--bv')
both('P25', 'buf', 'h_schema', '-DNC=3 -DSZMAX=5 -DBUF', reach=('created', 'refused'), opts='--bv')
both('P25', 'buflong', 'h_schema', '-DNC=4 -DSIZES=1,100,127 -DBUF', reach=('created', 'refused'), opts='--bv')
for i, nm in enumerate(('int32', 'int64', 'unsigned', 'signed')):
    both('P26', nm, 'h_cmp', '-DWHICH=%d' % i, reach=('greater', 'less', 'equal'), opts='--bv')
DF = '-include stdio_stub.h '
for ps in (512, 1000):
    both('P28', 'desk%d' % ps, 'h_file', '-DFAILS=0 -DPS=%d' % ps, rdefs=DF, src=('lib/Desktop-File-Interface/desktopFileInterface.c',), reach=('roundtrip',))
    both('P28', 'mock%d' % ps, 'h_file', '-DIF=1 -DFAILS=0 -DPS=%d' % ps, rdefs=DF, src=('lib/Desktop-File-Interface/desktopFileInterface.c',), reach=('roundtrip',))
both('P28', 'deskfail', 'h_file', '-DFAILS=2 -DPS=16 -DOPENFAIL', rdefs=DF, src=('lib/Desktop-File-Interface/desktopFileInterface.c',), reach=('roundtrip', 'writefail', 'readfail'))
both('P28', 'mockfail', 'h_file', '-DIF=1 -DFAILS=1 -DPS=16', rdefs=DF, src=('lib/Desktop-File-Interface/desktopFileInterface.c',), reach=('roundtrip', 'writefail', 'readfail', 'erasefail'))
SDI = '-DARDUINO -I%s/ard ' % os.path.join(HERE, 'harness') + '-I%s/lib/SD-File-Interface -I%s/lib/SD-Wrapper -I%s/lib/Dataflash-File-Interface -I%s/lib/Dataflash-Wrapper' % ((os.environ.get('VERIF_REPO', '/repo'),) * 4)
one('P28', 'sd', 'h_file', '-DIF=2 -DFAILS=1 -DPS=16 -DPMAX=3 -DOPENFAIL', rdefs=SDI, src=('lib/SD-File-Interface/SDFileInterface.c',), reach=('roundtrip', 'writefail', 'readfail'))
one('P28', 'flash', 'h_file', '-DIF=3 -DFAILS=1 -DPS=16 -DPMAX=8', rdefs=SDI, src=('lib/Dataflash-File-Interface/dataflashFileInterface.c',), reach=('roundtrip', 'writefail', 'readfail', 'outside'))

def diff(name, defs, **kw):
    kw.setdefault('time', 120)
    one('P27', name, 'h_diff', defs, variant='diff', **kw)


diff('plain', '-DMODE=0 -DN=6 -DASC=4 -DPGS=22 -DND=8 -DFLM=0x2', reach=('found', 'row', 'refused', 'accepted', 'restart'))
diff('wrap', '-DMODE=0 -DN=7 -DASC=7 -DPGS=22 -DND=2 -DES=1', reach=('found', 'row', 'restart'))
diff('min', '-DMODE=0 -DN=9 -DASC=9 -DPGS=22 -DND=8 -DFIL=1 -DSCANONLY', reach=('row', 'restart'))
diff('mmx', '-DMODE=0 -DN=5 -DASC=5 -DPGS=44 -DND=8 -DFIL=3 -DFLM=0x2 -DSCANONLY -DPARAMS=EMBEDDB_USE_MAX_MIN', reach=('row', 'restart'))
diff('idx', '-DMODE=0 -DN=4 -DASC=4 -DND=8 -DFIL=4 -DBMS=1 -DPGS=32 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN)"', reach=('found', 'row', 'restart'))
diff('bin', '-DMODE=0 -DN=7 -DASC=7 -DPGS=22 -DND=8 -DFIL=2 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('found', 'row', 'restart'))
diff('rlc', '-DMODE=0 -DN=5 -DASC=5 -DPGS=22 -DND=8 -DFLM=0x4 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('found', 'row', 'restart'))
diff('var', '-DMODE=0 -DN=2 -DASC=2 -DVARD=20 -DPGS=32 -DPARAMS=EMBEDDB_USE_VDATA', reach=('found', 'row', 'restart', 'vardata'))
diff('files', '-DMODE=1 -DN=4 -DM=2 -DPGS=22 -DND=8 -DFLM=0x2', reach=('switched', 'present'))
diff('fileswrap', '-DMODE=1 -DN=8 -DM=2 -DPGS=22 -DND=4', reach=('switched', 'present'))
diff('filesidx', '-DMODE=1 -DN=3 -DM=1 -DND=8 -DNI=4 -DFIL=4 '+IDXP, reach=('switched', 'present'))
diff('util', '-DMODE=2', reach=('util',), opts='--bv')
BIN = '-DPARAMS=EMBEDDB_USE_BINARY_SEARCH '
both('P29', 'live', 'h_multi', '-DN=4 -DT=6 -DPGS=22 -DND=8 '+BIN, reach=('next', 'newer', 'end'))
both('P29', 'evict', 'h_multi', '-DN=7 -DT=5 -DTAKE=3 -DPGS=22 -DND=4 '+BIN, reach=('next', 'newer', 'end', 'skipped'))
both('P29', 'evictfil', 'h_multi', '-DN=7 -DT=4 -DTAKE=2 -DPGS=22 -DND=4 -DFILA=2 '+BIN, reach=('next', 'end', 'skipped'))
both('P29', 'spline', 'h_multi', '-DN=6 -DT=3 -DPGS=22 -DND=4 -DFILA=1', reach=('next', 'end', 'skipped'))
both('P29', 'two', 'h_multi', '-DN=6 -DT=5 -DOPS=0x17 -DPGS=22 -DND=8 '+BIN, reach=('next', 'newer', 'end'))
both('P29', 'get', 'h_multi', '-DN=4 -DT=2 -DTAKE=2 -DOPS=0xb -DPGS=22 -DND=8 '+BIN, reach=('next', 'end', 'get'))
both('P29', 'idx', 'h_multi', '-DN=3 -DT=3 -DOPS=0x13 -DFILA=4 -DND=8 -DNI=4 -DPGS=27 -DBMS=5 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_BINARY_SEARCH)"', reach=('next', 'end'))
both('P29', 'inst', 'h_multi', '-DMODE=1 -DN=3 -DFLM=0x4 -DPGS=27 -DBMS=5 -DP2="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_BINARY_SEARCH)"', reach=('next', 'end', 'second'))
both('P29', 'var', 'h_multi', '-DN=3 -DT=3 -DVARD=14 -DNV=16 -DPGS=30 -DND=8 -DOPS=0x17 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('next', 'newer', 'end'))
both('P16', 'plain', 'h_page', '-DN=11 -DPGS=22 -DND=4 -DFLM=0x12', reach=('page', 'flush'))
both('P16', 'mm', 'h_page', '-DN=5 -DPGS=38 -DND=4 -DFLM=0x6 -DPARAMS=EMBEDDB_USE_MAX_MIN', reach=('page', 'flush', 'minmax'))
both('P16', 'idx', 'h_page', '-DN=8 -DBMS=5 -DPGS=27 -DND=8 -DNI=4 -DFLM=0x12 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('page', 'flush', 'bitmap', 'index'))
both('P16', 'idxre', 'h_page', '-DN=5 -DBMS=3 -DPGS=25 -DND=8 -DNI=4 -DREM=0xa -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('page', 'restart', 'bitmap', 'index'))
both('P16', 'var', 'h_page', '-DN=4 -DLENS=0,14,20,45 -DNV=16 -DPGS=32 -DND=8 -DFLM=0x5 -DPARAMS=EMBEDDB_USE_VDATA', reach=('page', 'flush', 'vardata'))
both('P16', 'all', 'h_page', '-DN=4 -DLENS=3,40 -DNV=16 -DBMS=2 -DPGS=50 -DND=8 -DFLM=0x5 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_VDATA)"', reach=('page', 'flush', 'vardata', 'bitmap', 'minmax'))
both('P16', 'odd', 'h_page', '-DN=6 -DKS=7 -DDS=2 -DBMS=3 -DPGS=47 -DND=4 -DFLM=0x2 -DPARAMS="(EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN)"', reach=('page', 'flush', 'bitmap', 'minmax'))
VD = '-DKSYM=3 -DDSYM=2 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)" '
VDR = '-DKSYM=3 -DDSYM=2 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH|EMBEDDB_RECORD_LEVEL_CONSISTENCY)" '
both('P34', 'var', 'h_crash', '-DN=4 -DLENS=0,14,40 -DNV=16 -DPGS=30 -DND=8 -DFLM=0x2 '+VD, reach=('crashed', 'poweroff', 'vardata', 'flush'))
both('P34', 'varwrap', 'h_crash', '-DN=6 -DC0=3 -DLENS=30,45 -DNV=8 -DPGS=30 -DND=8 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'varrlc', 'h_crash', '-DN=3 -DLENS=0,14,40 -DNV=16 -DPGS=30 -DND=8 -DFLM=0x2 '+VDR, reach=('crashed', 'poweroff', 'vardata', 'flush'))
both('P34', 'varrlcwrap', 'h_crash', '-DN=6 -DC0=3 -DLENS=30,45 -DNV=8 -DPGS=30 -DND=8 '+VDR, reach=('crashed', 'lost', 'vardata'))
both('P19', 'varrlc', 'h_io', '-DKC -DDSYM=2 -DN=3 -DLENS=3,45 -DNV=24 -DM=1 -DFLM=0x2 -DPGS=30 -DREOPEN=1 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('putfail', 'failed'))
both('P34', 'varwrap0', 'h_crash', '-DN=6 -DC0=3 -DLENS=30,45 -DNV=8 -DPGS=30 -DND=8 -DERK=0 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'varwrap2', 'h_crash', '-DN=6 -DC0=3 -DLENS=30,45 -DNV=6 -DPGS=30 -DND=8 -DERK=2 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'vare1', 'h_crash', '-DN=6 -DC0=3 -DLENS=20,30 -DNV=4 -DES=1 -DPGS=30 -DND=8 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'var2', 'h_crash', '-DN=4 -DC0=2 -DLENS=20,30 -DNV=6 -DPGS=30 -DND=8 -DCRASHES=2 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'var2rlc', 'h_crash', '-DN=4 -DC0=2 -DLENS=20 -DNV=6 -DPGS=30 -DND=8 -DCRASHES=2 '+VDR, reach=('crashed', 'vardata'))
both('P34', 'reuse', 'h_crash', '-DN=6 -DC0=3 -DLENS=30,45 -DNV=8 -DPGS=30 -DND=8 -DREUSE '+VD, reach=('crashed', 'lost', 'vardata'))
both('P34', 'datawrap', 'h_crash', '-DN=11 -DC0=8 -DLENS=20 -DNV=8 -DPGS=30 -DND=4 -DM=1 -DFLM=0x200 '+VD, reach=('crashed', 'evicted', 'vardata'))
both('P11', 'idxrlc', 'h_crash', '-DN=6 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DFLM=0x4 -DC0=2 -DBMS=5 -DPGS=27 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('crashed', 'poweroff', 'flush', 'query', 'match'))
both('P11', 'idxvar', 'h_crash', '-DKSYM=3 -DN=6 -DLENS=20 -DND=8 -DNV=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DFLM=0x4 -DC0=2 -DBMS=5 -DPGS=35 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_VDATA)"', reach=('crashed', 'poweroff', 'flush', 'query', 'match', 'vardata'))
both('P11', 'idxrlcwrap', 'h_crash', '-DKSYM=3 -DN=12 -DND=8 -DNI=4 -DDSYM=0x12 -DQUERY=4 -DC0=7 -DBMS=5 -DPGS=27 -DM=1 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('crashed', 'query', 'match'))
both('P33', 'get', 'h_stats', '-DN=9 -DPGS=22 -DND=8 -DFLM=0x10', reach=('several', 'again'))
both('P33', 'getwrap', 'h_stats', '-DN=9 -DPGS=22 -DND=4', reach=('several',))
both('P33', 'getbin', 'h_stats', '-DN=12 -DPGS=22 -DND=8 -DFLM=0x10 '+BIN, reach=('several',))
both('P33', 'getre', 'h_stats', '-DN=7 -DPGS=22 -DND=8 -DRE=1', reach=('several', 'again'))
both('P33', 'err0', 'h_stats', '-DN=7 -DPGS=22 -DND=8 -DPERR=0', reach=('again',))
both('P33', 'idx', 'h_stats', '-DN=5 -DPGS=27 -DBMS=5 -DND=8 -DNI=4 -DFLM=0x4 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('row', 'skip'))
both('P33', 'idxre', 'h_stats', '-DN=4 -DPGS=27 -DBMS=5 -DND=8 -DNI=4 -DRE=1 -DFIL=8 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('row', 'skip'))
both('P33', 'var', 'h_stats', '-DN=5 -DPGS=30 -DND=8 -DNV=4 -DFLM=0x4 -DPARAMS=EMBEDDB_USE_VDATA', reach=('several', 'again'))

# erase blocks of three and four pages
E3 = '-DES=3 -DND=6 '
both('P03', 'wrape3', 'h_wrap', '-DN=15 -DPGS=22 -DKCONC -DFLM=0x2210 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH '+E3, reach=('evicted',))
both('P03', 'wrape4', 'h_wrap', '-DN=20 -DPGS=22 -DKCONC -DES=4 -DND=8 -DFLM=0x20000 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('evicted',))
both('P10', 'rece3', 'h_recover', '-DN=16 -DNMIN=11 -DPGS=22 -DM=2 -DENDFL=2 -DKCONC '+E3, reach=('restored', 'evicted'))
both('P10', 'rece3re', 'h_recover', '-DN=15 -DNMIN=12 -DPGS=22 -DM=4 -DRE2=1 -DERK=0 -DKCONC -DPARAMS=EMBEDDB_USE_BINARY_SEARCH '+E3, reach=('restored', 'evicted', 'twice'))
both('P32', 'crashe3', 'h_crash', '-DN=16 -DC0=11 -DPGS=22 -DM=3 -DKSYM=3 '+E3, reach=('crashed', 'evicted'))
both('P32', 'crashe30', 'h_crash', '-DN=16 -DC0=11 -DPGS=22 -DM=3 -DERK=0 -DKSYM=3 '+E3, reach=('crashed', 'evicted'))
both('P32', 'crashe3x2', 'h_crash', '-DN=15 -DC0=11 -DPGS=22 -DM=4 -DCRASHES=2 -DKSYM=3 '+E3, reach=('crashed', 'evicted'))
both('P13', 'rlce3', 'h_crash', '-DN=19 -DC0=12 -DPGS=22 -DES=3 -DND=12 -DKSYM=3 -DPARAMS="(EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('crashed', 'evicted'))
both('P13', 'rlce3x2', 'h_crash', '-DN=10 -DC0=6 -DPGS=22 -DES=3 -DND=12 -DKSYM=3 -DCRASHES=2 -DM=3 -DPARAMS="(EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('crashed',))
both('P11', 'idxe3', 'h_crash', '-DKSYM=3 -DN=8 -DES=3 -DND=18 -DNI=6 -DDSYM=0x12 -DQUERY=8 -DFLALL=0x3f -DFLM=0x40 -DC0=4 -DM=3 -DFLALL2=0x7 '+IDXP, reach=('crashed', 'idxwrap', 'query', 'match'))
both('P11', 'idxmore', 'h_crash', '-DKSYM=3 -DN=3 -DND=16 -DNI=4 -DDSYM=0x2 -DQUERY=4 -DFLALL=0x3 -DM=7 -DFLALL2=0x7f '+IDXP, reach=('crashed', 'idxwrap', 'query', 'match'))
both('P11', 'idxmore1', 'h_crash', '-DKSYM=3 -DN=3 -DES=1 -DND=16 -DNI=3 -DDSYM=0x2 -DQUERY=4 -DFLALL=0x3 -DM=6 -DFLALL2=0x3f '+IDXP, reach=('crashed', 'idxwrap', 'query', 'match'))
both('P12', 'varree3', 'h_var', '-DN=8 -DKSYM=3 -DLENS=20,30 -DES=3 -DND=9 -DNV=6 -DNULLS=0 -DREM=0x70', reach=('data', 'overwritten', 'restart'))
both('P34', 'vare3', 'h_crash', '-DN=8 -DC0=5 -DLENS=20,30 -DNV=6 -DES=3 -DPGS=30 -DND=9 '+VD, reach=('crashed', 'lost', 'vardata'))
both('P09', 'evicte3', 'h_var', '-DN=8 -DKSYM=3 -DLENS=20,30 -DES=3 -DND=9 -DNV=6 -DNULLS=0 -DGETM=0x40', reach=('data', 'overwritten'))
both('P19', 'flush', 'h_io', '-DENDGET=1 -DN=4 -DPGS=22 -DND=8 -DFLM=0xa -DFMASK=9 -DRETRY=1 -DREOPEN=1', reach=('putfail', 'flushfail', 'failed'))
both('P19', 'flushidx', 'h_io', '-DN=3 -DND=8 -DNI=4 -DKC -DDSYM=0x4 -DM=1 -DQUERY=4 -DFLM=0x6 -DFMASK=13 -DRETRY=1 -DREOPEN=1 '+IDXP, reach=('putfail', 'flushfail', 'failed', 'match'))
both('P19', 'flushrlc', 'h_io', '-DENDGET=1 -DN=5 -DKC -DDSYM=2 -DPGS=22 -DND=8 -DFLM=0x14 -DFMASK=13 -DRETRY=1 -DREOPEN=1 '+RLC, reach=('putfail', 'flushfail', 'failed'))
both('P19', 'flushvar', 'h_io', '-DN=3 -DLENS=3,40 -DNV=24 -DM=1 -DFLM=0x3 -DKC -DDSYM=2 -DPGS=30 -DFMASK=9 -DRETRY=1 -DREOPEN=1 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('putfail', 'flushfail', 'failed'))
both('P19', 'wrape3', 'h_io', '-DENDGET=1 -DN=16 -DF0=11 -DPGS=22 -DKC -DREOPEN=1 '+E3, reach=('putfail', 'failed', 'evicted'))
both('P01', 'getk5', 'h_get', '-DN=7 -DKS=5 -DDS=1 -DPGS=32 -DFLM=0x8', reach=('present', 'absent', 'flush'))
both('P01', 'getk1', 'h_get', '-DN=9 -DKS=1 -DDS=8 -DPGS=43 -DFLM=0x10', reach=('present', 'absent', 'flush'))
both('P14', 'e1k2', 'h_spline', '-DNP=5 -DKS=2', reach=('bend', 'inner', 'first'))
both('P10', 'big300', 'h_big', '-DN=560 -DKS=2 -DDS=1 -DPGS=916 -DND=4 -DGAP=2 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('present', 'absent', 'restart'))
both('P12', 'datawrap', 'h_crash', '-DN=14 -DNMIN=10 -DC0=14 -DLENS=24 -DNV=30 -DPGS=30 -DND=4 -DM=1 '+VD, reach=('poweroff', 'evicted', 'vardata'))
both('P28', 'deskcut', 'h_file', '-DCUT -DFAILS=0 -DPS=16', rdefs=DF, src=('lib/Desktop-File-Interface/desktopFileInterface.c',), reach=('cut', 'whole'))
one('P28', 'sdcut', 'h_file', '-DCUT -DIF=2 -DFAILS=0 -DPS=16 -DPMAX=3', rdefs=SDI, src=('lib/SD-File-Interface/SDFileInterface.c',), reach=('cut', 'whole'))
# ---- queries are observers
both('P35', 'get', 'h_pure', '-DN=6 -DPGS=22 -DND=4 -DKCONC -DQM=0x14 -DQK=0x45 -DFLM=0x8 -DDSYM=0x0', reach=('get', 'iter', 'select', 'same'))
both('P35', 'getk', 'h_pure', '-DN=5 -DPGS=22 -DND=4 -DQM=0x14 -DQK=0x3 -DFLM=0x4', reach=('get', 'iter', 'same'))
both('P35', 'gaps', 'h_pure', '-DN=18 -DPGS=22 -DND=16 -DPERR=3 -DKTAB=10,11,12,13,14,15,16,17,18,46,47,48,49,50,51,52,53,54 -DQM=0x20000 -DQK=0x7 -DDSYM=0x0', reach=('get', 'iter', 'same'))
both('P35', 'bin', 'h_pure', '-DN=10 -DPGS=22 -DND=4 -DKCONC -DQM=0x140 -DQK=0x7 -DFLM=0x80 -DDSYM=0x0 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('get', 'iter', 'same'))
both('P35', 'idx', 'h_pure', '-DN=5 -DPGS=27 -DND=8 -DNI=4 -DBMS=5 -DKCONC -DQM=0xa -DQK=0xb -DFLM=0x4 -DREM=0x4 -DDSYM=0x0 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('get', 'iter', 'same'))
both('P35', 'rlc', 'h_pure', '-DN=6 -DPGS=22 -DND=8 -DKCONC -DQM=0x14 -DQK=0x7 -DFLM=0x2 -DREM=0x4 -DDSYM=0x0 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('get', 'iter', 'same'))
both('P35', 'var', 'h_pure', '-DN=3 -DPGS=30 -DND=8 -DNV=4 -DKCONC -DQM=0x6 -DQK=0x33 -DREM=0x2 -DDSYM=0x0 -DLENS=0,20 -DPARAMS=EMBEDDB_USE_VDATA', reach=('get', 'iter', 'getvar', 'nextvar', 'same'))
both('P35', 'varwrap', 'h_pure', '-DN=7 -DPGS=30 -DND=8 -DNV=4 -DKCONC -DQM=0x20 -DQK=0xb3 -DREM=0x0 -DDSYM=0x0 -DLENS=20,30 -DPARAMS=EMBEDDB_USE_VDATA', reach=('get', 'iter', 'getvar', 'nextvar', 'same', 'reset'))
both('P35', 'all', 'h_pure', '-DN=4 -DPGS=40 -DND=8 -DNV=6 -DNI=4 -DBMS=1 -DKCONC -DQM=0x8 -DQK=0x7b -DREM=0x2 -DFLM=0x2 -DDSYM=0x0 -DLENS=0,20 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('get', 'iter', 'getvar', 'nextvar', 'same', 'select'))
both('P36', 'reset', 'h_sess', '-DNSESS=2 -DSN=5,4', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetbin', 'h_sess', '-DNSESS=2 -DSN=5,4 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetvar', 'h_sess', '-DNSESS=2 -DSN=5,3 -DPARAMS=EMBEDDB_USE_VDATA', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetrlc', 'h_sess', '-DNSESS=2 -DSN=5,4 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetidx', 'h_sess', '-DNSESS=2 -DSN=5,4 -DPGS=32 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'search', 'h_sess', '-DNSESS=3 -DSN=4,2,2 -DSR=1,0,0 -DSP=0,EMBEDDB_USE_BINARY_SEARCH,0', reach=('found', 'absent', 'end'))
both('P36', 'lateidx', 'h_sess', '-DNSESS=3 -DSN=5,4,3 -DKOLD=7 -DSR=1,0,0 -DDSYM=0x222 -DPGS=32 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)" -DSP=EMBEDDB_USE_BMAP,PARAMS,PARAMS', reach=('found', 'absent', 'end'))
both('P36', 'gapidx', 'h_sess', '-DNSESS=3 -DSN=5,4,3 -DKOLD=7 -DSR=1,0,0 -DDSYM=0x222 -DPGS=32 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)" -DSP=PARAMS,EMBEDDB_USE_BMAP,PARAMS', reach=('found', 'absent', 'end'))
both('P36', 'resetwrap', 'h_sess', '-DNSESS=2 -DSN=19,4 -DSR=1,1 -DND=4', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetvarwrap', 'h_sess', '-DNSESS=2 -DSN=19,3 -DSR=1,1 -DND=8 -DNV=4 -DPARAMS=EMBEDDB_USE_VDATA', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetrlcwrap', 'h_sess', '-DNSESS=2 -DSN=29,4 -DSR=1,1 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetidxwrap', 'h_sess', '-DNSESS=2 -DSN=29,4 -DSR=1,1 -DBMS=5 -DNI=4 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'rlcon', 'h_sess', '-DNSESS=3 -DSN=4,2,2 -DSR=1,0,0 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY -DSP=0,PARAMS,PARAMS', reach=('found', 'absent', 'end'))
both('P36', 'rlcoff', 'h_sess', '-DNSESS=3 -DSN=4,2,2 -DSR=1,0,0 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY -DSP=PARAMS,0,PARAMS -DSE=1,1,2', reach=('found', 'absent', 'end'))
both('P36', 'resetvarrlc', 'h_sess', '-DNSESS=2 -DSN=20,3 -DSR=1,1 -DNV=8 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('reset', 'found', 'absent', 'end'))
both('P36', 'resetall', 'h_sess', '-DNSESS=2 -DSN=3,2 -DDSYM=0x2 -DPGS=40 -DND=16 -DNV=16 -DNI=4 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('reset', 'found', 'absent', 'end'))
# ---- a flush makes everything durable
both('P20', 'plain', 'h_flush', '-DN=5 -DNMIN=1 -DPGS=22 -DND=8 -DM=4 -DFLM=0x2', reach=('again', 'crashed', 'poweroff', 'get'))
both('P20', 'wrap', 'h_flush', '-DN=9 -DNMIN=7 -DPGS=22 -DND=4 -DKCONC -DM=5 -DFLM=0x10', reach=('again', 'crashed', 'poweroff', 'get', 'evicted'))
both('P20', 'wrap0', 'h_flush', '-DN=9 -DNMIN=7 -DPGS=22 -DND=4 -DKCONC -DM=5 -DFLM=0x10 -DERK=0', reach=('again', 'crashed', 'poweroff', 'get', 'evicted'))
both('P20', 'bin', 'h_flush', '-DN=10 -DNMIN=8 -DPGS=22 -DND=4 -DM=3 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('again', 'crashed', 'poweroff', 'get', 'evicted'))
both('P20', 'rlc', 'h_flush', '-DN=5 -DNMIN=1 -DPGS=22 -DND=8 -DFLM=0x6 '+RLC, reach=('again', 'crashed', 'poweroff', 'get'))
both('P20', 'rlcwrap', 'h_flush', '-DN=16 -DNMIN=14 -DPGS=22 -DND=8 -DFLM=0x4 -DKCONC -DM=4 '+RLC, reach=('again', 'crashed', 'poweroff', 'get', 'evicted'))
both('P20', 'idx', 'h_flush', '-DN=4 -DNMIN=1 -DND=8 -DNI=4 -DQUERY=4 -DM=3 -DDSYM=0xa '+IDXP, reach=('again', 'crashed', 'poweroff', 'query'))
both('P20', 'var', 'h_flush', '-DN=3 -DNMIN=1 -DPGS=30 -DLENS=0,40 -DND=8 -DNV=16 -DKCONC -DFLM=0x1 -DDSYM=0x2 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('again', 'crashed', 'poweroff', 'vardata'))
both('P20', 'varwrap', 'h_flush', '-DN=5 -DNMIN=4 -DPGS=30 -DLENS=20,30 -DND=8 -DNV=6 -DKCONC -DFLM=0x4 -DDSYM=0x2 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('again', 'crashed', 'poweroff', 'vardata', 'lost'))
both('P20', 'all', 'h_flush', '-DN=3 -DPGS=50 -DLENS=0,20 -DND=8 -DNV=16 -DNI=4 -DBMS=2 -DKCONC -DFLM=0x2 -DM=1 -DQUERY=8 -DDSYM=0x2 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('again', 'crashed', 'poweroff', 'vardata', 'query'))
# ---- life cycle
both('P30', 'plain', 'h_life', '-DPGS=22 -DND=4 -DT=3 -DOPM=0x57', reach=('get', 'iter', 'reopened'))
both('P30', 'query', 'h_life', '-DPGS=22 -DND=4 -DT=2 -DOPM=0xd1', reach=('iter', 'reopened', 'query'))
both('P30', 'fail', 'h_life', '-DPGS=22 -DND=4 -DT=2 -DN0=5 -DFAILS=2 -DFMASK=15 -DOPM=0xd7', reach=('get', 'iter', 'reopened', 'query', 'failed', 'refused'))
both('P30', 'anykey', 'h_life', '-DPGS=40 -DND=4 -DT=2 -DARB=1 -DOPM=0x14', reach=('get', 'iter'))
both('P30', 'anykeyvar', 'h_life', '-DPGS=60 -DND=8 -DNV=8 -DN0=3 -DT=1 -DLENS=3 -DARB=1 -DOPM=0xc -DPARAMS=EMBEDDB_USE_VDATA', reach=('get', 'getvar'))
both('P30', 'anykey8', 'h_life', '-DKS=8 -DPGS=60 -DND=8 -DNV=8 -DN0=3 -DT=1 -DLENS=3 -DARB=1 -DOPM=0x1c -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('get', 'getvar'))
both('P07', 'huge', 'h_varbig', '-DLEN=36000 -DPGS=2048 -DND=4 -DNV=22 -DCH=LEN -DPARAMS=EMBEDDB_USE_VDATA', reach=('data', 'restart'))
both('P08', 'huge', 'h_varbig', '-DLEN=66000 -DPGS=4096 -DND=4 -DNV=20 -DPARAMS=EMBEDDB_USE_VDATA', reach=('data', 'restart'))
both('P04', 'big300', 'h_big', '-DN=560 -DKS=2 -DDS=1 -DPGS=916 -DND=4 -DGAP=2', reach=('present', 'absent', 'restart'))
both('P16', 'long', 'h_long', '-DN=66000 -DPGS=14 -DND=10', reach=('restart', 'more'), opts='--steps 400000000')
both('P01', 'long', 'h_long', '-DN=66000 -DPGS=14 -DND=10 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('restart', 'more'), opts='--steps 400000000')
both('P16', 'longidx', 'h_long', '-DN=66000 -DPGS=20 -DND=10 -DNI=6 -DBMS=1 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('restart', 'more'), opts='--steps 400000000')
both('P04', 'long', 'h_long', '-DN=66000 -DPGS=32 -DND=10 -DBMS=1 -DQUERY -DPARAMS="(EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN)"', reach=('restart', 'more'), opts='--steps 400000000')
both('P10', 'long', 'h_long', '-DN=66000 -DPGS=18 -DND=10 -DNV=10 -DPARAMS=EMBEDDB_USE_VDATA', reach=('restart', 'more', 'vardata'), opts='--steps 400000000')
both('P20', 'long', 'h_long', '-DN=66000 -DPGS=14 -DND=12 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('restart', 'more'), opts='--steps 400000000')
both('P30', 'idx', 'h_life', '-DPGS=27 -DND=8 -DNI=4 -DBMS=5 -DT=3 -DFAILS=1 -DFMASK=11 -DOPM=0x53 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('iter', 'reopened', 'failed', 'refused'))
both('P30', 'var', 'h_life', '-DPGS=32 -DND=8 -DNV=4 -DN0=2 -DT=3 -DOPM=0x69 -DPARAMS=EMBEDDB_USE_VDATA', reach=('getvar', 'itervar', 'reopened'))
both('P30', 'varfail', 'h_life', '-DPGS=32 -DND=8 -DNV=4 -DT=2 -DFAILS=2 -DFMASK=15 -DOPM=0x6b -DPARAMS=EMBEDDB_USE_VDATA', reach=('getvar', 'itervar', 'reopened', 'failed', 'refused'))
both('P30', 'rlc', 'h_life', '-DPGS=22 -DND=8 -DN0=4 -DT=3 -DFAILS=1 -DFMASK=15 -DOPM=0x47 -DPARAMS="(EMBEDDB_RECORD_LEVEL_CONSISTENCY|EMBEDDB_USE_BINARY_SEARCH)"', reach=('get', 'reopened', 'failed', 'refused'))
both('P30', 'all', 'h_life', '-DPGS=50 -DND=8 -DNI=4 -DNV=8 -DBMS=2 -DN0=2 -DT=2 -DFAILS=1 -DFMASK=15 -DOPM=0x7f -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP|EMBEDDB_USE_MAX_MIN|EMBEDDB_USE_VDATA|EMBEDDB_RECORD_LEVEL_CONSISTENCY)"', reach=('get', 'iter', 'getvar', 'itervar', 'reopened', 'failed', 'refused'))
both('P30', 'wrapfail', 'h_life', '-DPGS=22 -DND=4 -DT=2 -DN0=9 -DFAILS=2 -DFMASK=15 -DOPM=0x45', reach=('get', 'reopened', 'failed', 'refused'))
both('P30', 'wrapiter', 'h_life', '-DPGS=22 -DND=4 -DT=2 -DN0=9 -DFAILS=1 -DFMASK=2 -DOPM=0x51', reach=('iter', 'reopened', 'failed', 'refused'))
both('P30', 'rlcwrapfail', 'h_life', '-DPGS=22 -DND=8 -DN0=15 -DT=2 -DFAILS=1 -DFMASK=15 -DOPM=0x47 -DPARAMS=EMBEDDB_RECORD_LEVEL_CONSISTENCY', reach=('get', 'reopened', 'failed', 'refused'))
both('P30', 'varwrapfail', 'h_life', '-DPGS=32 -DND=4 -DNV=4 -DN0=8 -DT=2 -DLENS=24 -DFAILS=1 -DFMASK=15 -DOPM=0x4b -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('getvar', 'reopened', 'failed', 'refused'))
both('P30', 'idxwrapfail', 'h_life', '-DPGS=27 -DND=8 -DNI=4 -DBMS=5 -DN0=11 -DT=2 -DFAILS=1 -DFMASK=15 -DOPM=0x43 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('reopened', 'failed', 'refused'))
both('P30', 'idxwrapiter', 'h_life', '-DPGS=27 -DND=8 -DNI=4 -DBMS=5 -DN0=11 -DT=1 -DFAILS=1 -DFMASK=2 -DOPM=0x10 -DPARAMS="(EMBEDDB_USE_INDEX|EMBEDDB_USE_BMAP)"', reach=('iter', 'failed'))
both('P30', 'varwrapiter', 'h_life', '-DPGS=32 -DND=4 -DNV=4 -DN0=8 -DT=1 -DLENS=24 -DFAILS=1 -DFMASK=2 -DOPM=0x20 -DPARAMS="(EMBEDDB_USE_VDATA|EMBEDDB_USE_BINARY_SEARCH)"', reach=('itervar', 'failed'))
# ---- storage discipline
both('P17', 'plain', 'h_disc', '-DN=12 -DPGS=22 -DND=4 -DFLM=0x112 -DREM=0x240 -DITM=0x800 -DGETM=0x100', reach=('wrapped', 'flush', 'restart', 'iter', 'get'))
both('P17', 'crash', 'h_disc', '-DN=11 -DC0=6 -DM=4 -DPGS=22 -DND=4 -DFLM=0x10 -DITM=0x4000 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('wrapped', 'flush', 'crashed', 'iter'))
both('P17', 'e1', 'h_disc', '-DN=9 -DC0=4 -DM=4 -DPGS=22 -DND=3 -DES=1 -DFLM=0x10 -DREM=0x20 -DGETM=0x1000 -DPARAMS=EMBEDDB_USE_BINARY_SEARCH', reach=('wrapped', 'flush', 'crashed', 'get', 'restart'))
both('P17', 'e3', 'h_disc', '-DN=15 -DC0=10 -DM=4 -DES=3 -DND=6 -DPGS=22 -DFLM=0x400 -DITM=0x40000', reach=('wrapped', 'flush', 'crashed', 'iter'))
both('P17', 'rlc', 'h_disc', '-DN=7 -DC0=2 -DM=4 -DPGS=22 -DND=8 -DFLM=0x14 -DREM=0x20 -DITM=0x400 '+RLC, reach=('temp', 'flush', 'crashed', 'iter'))
both('P17', 'rlcwrap', 'h_disc', '-DN=17 -DC0=13 -DM=5 -DPGS=22 -DND=8 -DFLM=0x4000 -DGETM=0x200000 '+RLC, reach=('temp', 'wrapped', 'flush', 'crashed', 'get'))
both('P17', 'idx', 'h_disc', '-DN=7 -DC0=4 -DM=3 -DND=12 -DNI=4 -DDSYM=0 -DFLM=0xff -DREM=0x20 -DITM=0x200 '+IDXP, reach=('idxwrapped', 'flush', 'crashed', 'iter', 'restart'))
both('P17', 'var', 'h_disc', '-DN=5 -DC0=2 -DM=2 -DPGS=30 -DND=8 -DNV=4 -DLENS=0,30 -DFLM=0x4 -DREM=0x8 -DITM=0x40 '+VD, reach=('varwrapped', 'flush', 'crashed', 'iter', 'restart'))
both('P17', 'varget', 'h_disc', '-DN=6 -DM=0 -DPGS=30 -DND=8 -DNV=4 -DLENS=0,30 -DFLM=0x4 -DREM=0x10 -DGETM=0x20 '+VD, reach=('varwrapped', 'flush', 'get', 'restart'))
both('P17', 'varrlc', 'h_disc', '-DN=4 -DC0=2 -DM=2 -DPGS=30 -DND=8 -DNV=4 -DLENS=14,30 -DFLM=0x4 -DITM=0x20 '+VDR, reach=('varwrapped', 'temp', 'flush', 'crashed', 'iter'))


# deeper variants for the thorough tier: the same harness with more records / operations
import re as _re
_DEEP = {'h_get': 3, 'h_iter': 2, 'h_wrap': 2, 'h_recover': 2, 'h_crash': 1, 'h_order': 2, 'h_flush': 1, 'h_disc': 1, 'h_io': 1, 'h_var': 1, 'h_life': 1}
_NODEEP = {('P07', 'varplain-src')}  # outgrows the space for variable data
for _p in JOBS:
    for _j in list(JOBS[_p]):
        _k = r'-DT=(\d+)' if _j.harness == 'h_life' else r'-DN=(\d+)'
        if _j.variant == 'src' and _j.harness in _DEEP and _re.search(_k, _j.defs) and (_p, _j.name) not in _NODEEP:
            _d = _re.sub(_k, lambda m: m.group(0).split('=')[0] + '=%d' % (int(m.group(1)) + _DEEP[_j.harness]), _j.defs, count=1)
            JOBS[_p].append(Job(_j.name.replace('-src', '-deep'), _j.harness, _d, variant='src', time=_j.time, thorough=True, reach=_j.reach, opts=_j.opts, rdefs=_j.rdefs, src=_j.src, validate=_j.validate))
