"""The verification units of every property."""
from vlib import Unit
import extract
CHECKS = {}


def chk(prop, title, level, note, units, notes=(), searches=()):
    CHECKS[prop] = dict(title=title, level=level, note=note, units=units, notes=notes, searches=searches)


A_LOG = 'logging functions have no effect on program state; level EMERG aborts the process and does not return'
A_CFG = 'CHECKED with 64-bit gcc/Linux configuration of shim/config.h (the one configure generates here)'

chk('C08', 'filter', 'proof',
    'Inductive contract of every public filter operation over an arbitrary state satisfying the representation '
    'invariant, for all inputs; trusts CBMC and the logging/registration stubs.', [
    Unit('filter_ind', 'filter.c', ['FILTER_filter', 'FILTER_reset', 'FILTER_setSynchronizedFilter',
         'FILTER_setModeSExtSquitter', 'FILTER_setSynchronized', 'FILTER_getStatistics', 'construct', 'resetStats'],
         defs=['-DIND'], unwind=34, ind=True,
         assumptions=[A_LOG, A_CFG, 'frame types given to the filter are 1..4 (postcondition of the frame readers, C02)']),
    Unit('filter_hist', 'filter.c', ['FILTER_filter', 'FILTER_reset', 'FILTER_setSynchronizedFilter',
         'FILTER_setModeSExtSquitter', 'FILTER_setSynchronized', 'FILTER_getStatistics', 'construct', 'resetStats'],
         kind='bounded', bound='construction followed by 3 arbitrary public operations', defs=['-DSTEPS=3'], unwind=34),
], searches=[Unit('filter_search', 'filter.c', [], defs=['-DSTEPS=12'])])

LD = ['LIST_%sD' % f for f in 'init empty unlink shift pop insert push unshift separateFrom separateUntil concatenatePush concatenateUnshift fromVector begin beginRev end at'.split()]
LDC = [f + 'C' for f in LD] + ['LIST_lengthDC', 'LIST_separateFromFixDC', 'LIST_separateUntilFixDC']
LS = ['LIST_%sS' % f for f in 'init empty shift push unshift concatenatePush concatenateUnshift fromVector begin end at'.split()]
LSC = [f + 'C' for f in LS] + ['LIST_lengthSC']
def lists():
    us = []
    for kind, nm, fs in ((1, 'd', LD), (2, 'dc', LDC), (3, 's', LS), (4, 'sc', LSC)):
        K = ['-DKIND=%d' % kind, '-DGAPS=1', '-DAMAX=5', '-DBMAX=4', '-DTAINT=%d' % (kind == 2)]
        W = ['-DKIND=%d' % kind, '-DGAPS=0', '-DAMAX=3', '-DBMAX=3', '-DTAINT=%d' % (kind == 2)]
        dbl = kind < 3
        for sub, n in enumerate(['push', 'unshift', 'shift', 'init'] + (['pop'] if dbl else [])):
            us.append(Unit('%s_%s' % (nm, n), 'list.c', fs, defs=K + ['-DOP=0', '-DSUB=%d' % sub], unwind=15, sat=None, timeout=400,
                           assumptions=['the precondition of a list operation: a well-formed list that contains the given element (or does not, if it is added)']))
        if dbl:
            for sub, n in enumerate(['unlink', 'insert_end', 'insert']):
                us.append(Unit('%s_%s' % (nm, n), 'list.c', fs, defs=K + ['-DOP=1', '-DSUB=%d' % sub], unwind=15, sat=None, timeout=400))
        us.append(Unit(nm + '_join', 'list.c', fs, defs=K + ['-DOP=2'], unwind=15, sat=None, timeout=400))
        if dbl:
            us.append(Unit(nm + '_split', 'list.c', fs, defs=K + ['-DOP=3'], unwind=15, sat=None, timeout=400,
                           kind='bounded' if kind == 2 else 'proof', bound='a list that has to be counted has at most 5 elements' if kind == 2 else None))
        us.append(Unit(nm + '_walk', 'list.c', fs, 'bounded', 'lists of at most 3 elements', defs=W + ['-DOP=4'], unwind=15, sat=None, timeout=400))
        us.append(Unit(nm + '_vector', 'list.c', fs, 'bounded', 'vectors of at most 5 elements', defs=W + ['-DOP=5', '-UAMAX', '-DAMAX=5'], unwind=15, sat=None, timeout=400))
    return us
chk('C20', 'lists', 'proof', 'Lists of any length: the elements next to the operation are materialised, all others are behind gaps that may not be looked at. Operations that walk over the whole list are checked up to a bound.',
    lists(), searches=[Unit('list_search%d%d' % (k, o), 'list.c', [], defs=['-DKIND=%d' % k, '-DOP=%d' % o, '-DGAPS=1', '-DAMAX=5', '-DBMAX=4', '-DTAINT=%d' % (k == 2)]) for k in (1, 2, 3, 4) for o in (0, 1, 2, 3)])

BUFF = dict(new=['BUF_newFrame', 'getFrameFromPool', 'uncollectPools', 'createDynPool', 'deployPool'], gc=['BUF_runGC', 'gc', 'collectPools', 'destroyUnusedPools', 'mainloop'])
BUFU = ['uncollectPools.0:3', 'LIST_lengthDC.0:1', 'destroyUnusedPools.0:3', 'destruct.0:3']
A_BUF = ['the lock makes the operations atomic (that the shared state is touched only under it is an obligation: it is poisoned otherwise)', A_LOG,
         'one producer and one consumer (documented interface)', 'log output may be produced from any state']
def bu(name, fs, defs, gaps=1, kind='proof', bound=None, pm=None, **kw):
    d = ['-DGAPS=%d' % gaps] + defs
    if not any(x.startswith('-DCM') for x in d):
        d.append('-DCM=1')
    op = [x for x in d if x.startswith('-DOP=')][0][5:]
    R = {'0': [], '1': ['committed'], '2': ['aborted'], '3': ['delivered', 'wait', 'cancelled'], '4': ['delivered', 'wait', 'cancelled', 'timeout'], '5': ['released'],
         '6': ['returned'], '7': ['flushed'], '8': ['flushed'], '9': ['collected'], '10': ['collected', 'housekeeping'], '11': ['constructed', 'failed'], '12': ['destructed'],
         '13': ['fixed'], '14': [], '15': []}[op] + (['end'] if op not in ('10', '13') else [])
    R += {'new_free': ['free cell'], 'new_discard': ['oldest discarded', 'cells uncollected', 'no memory'], 'new_pool0': ['new pool', 'oldest discarded'],
          'new_pool1': ['new pool', 'oldest discarded', 'cells uncollected', 'no memory'], 'gc_2b': ['one pool given back', 'cell collected']}.get(name, [])
    return Unit('buf_' + name, 'buffer.c', fs, reach=R, defs=d, kind=kind, bound=bound, unwind=16, sat=None, ind=True, timeout=500,
                unwindset=BUFU + ['collectPools.0:5'], assumptions=A_BUF, **kw)
def bufs(*names):
    new2 = 'at most 2 additional pools exist (1 if another one is allocated) when no free cell is left in the free list'
    us = [
        bu('new_free', BUFF['new'], ['-DOP=0', '-DNONEW', '-DNPMIN=1']),
        bu('new_discard', BUFF['new'], ['-DOP=0', '-DNONEW', '-DPM=0', '-DNDFIX=2'], kind='bounded', bound=new2),
        bu('new_pool0', BUFF['new'], ['-DOP=0', '-DPM=0', '-DNDFIX=0', '-DDB=2'], kind='bounded', bound='additional pools of 2 cells'),
        bu('new_pool1', BUFF['new'], ['-DOP=0', '-DPM=0', '-DNDFIX=1', '-DDB=3', '-DQM=2'], kind='bounded', bound='additional pools of 3 cells'),
        bu('commit', ['BUF_commitFrame'], ['-DOP=1']),
        bu('abort', ['BUF_abortFrame'], ['-DOP=2']),
        bu('get', ['BUF_getFrame'], ['-DOP=3']),
        bu('get_timeout', ['BUF_getFrameTimeout'], ['-DOP=4', '-DMSMAX=100000']),
        bu('release', ['BUF_releaseFrame'], ['-DOP=5']),
        bu('put', ['BUF_putFrame'], ['-DOP=6']),
        bu('flush', ['BUF_flush'], ['-DOP=7']),
        bu('autoflush', ['BUF_flushUnlessHistoryEnabled'], ['-DOP=8']),
        bu('gc_2', BUFF['gc'], ['-DOP=9', '-DPM=4', '-DNPMIN=4', '-DNDFIX=2', '-DCM=2', '-DQM=2'], 0, 'bounded', '2 additional pools, 4 free and up to 2 queued cells, up to 4 collected cells'),
        bu('gc_2b', BUFF['gc'], ['-DOP=9', '-DPM=2', '-DNPMIN=2', '-DNDFIX=2', '-DCM=2', '-DQM=3'], 0, 'bounded', '2 additional pools, 2 free and up to 3 queued cells, up to 4 collected cells'),
        bu('gc_2c', BUFF['gc'], ['-DOP=9', '-DPM=0', '-DNPMIN=0', '-DNDFIX=2', '-DCM=2', '-DQM=3'], 0, 'bounded', '2 additional pools, no free and up to 3 queued cells, up to 4 collected cells'),
        bu('gc_1', BUFF['gc'], ['-DOP=9', '-DPM=3', '-DNPMIN=3', '-DNDFIX=1', '-DQM=3'], 0, 'bounded', '1 additional pool, 3 free and up to 3 queued cells'),
        bu('gc_0', BUFF['gc'], ['-DOP=9', '-DPM=3', '-DNPMIN=3', '-DNDFIX=0', '-DQM=3'], 0, 'bounded', 'no additional pool, 3 free and up to 3 queued cells'),
        bu('housekeeping', BUFF['gc'], ['-DOP=10', '-DPM=2', '-DNPMIN=2', '-DNDFIX=2'], 0, 'bounded', '2 additional pools, 2 free and up to 3 queued cells'),
        bu('construct', ['construct', 'deployPool'], ['-DOP=11', '-DDB=3'], 0, 'bounded', '3 preallocated cells'),
        bu('destruct', ['destruct'], ['-DOP=12', '-DNDFIX=2'], 0, 'bounded', '2 additional pools'),
        bu('config', ['cfgFix'], ['-DOP=13'], 0),
        bu('statistics', ['BUFFER_getStatistics'], ['-DOP=14']),
        bu('reset', ['resetStats'], ['-DOP=15']),
    ]
    return [u for u in us if u.name[4:] in names]
def bufsearch(*ops):
    return [Unit('buf_search%d' % o, 'buffer.c', [], defs=['-DOP=%d' % o, '-DCM=1', '-DGAPS=%d' % (o not in (9, 10, 12))]) for o in ops]
BNEW = ['new_free', 'new_discard', 'new_pool0', 'new_pool1']
BGC = ['gc_2', 'gc_2b', 'gc_2c', 'gc_1', 'gc_0', 'housekeeping']
N_BUF = ('Every public operation from any state in which every cell is in exactly one place (inductive), real list operations; backlog and free list of any length '
         '(cells away from the ends are behind gaps that must not be touched). Allocation of additional pools and garbage collection walk over cells: bounded.')
chk('C05', 'buffer', 'proof', N_BUF, bufs(*BNEW, *BGC, 'commit', 'abort', 'get', 'get_timeout', 'release', 'put', 'flush', 'construct', 'statistics', 'reset'), searches=bufsearch(0, 1, 2, 3, 4, 5, 6, 7, 9))
chk('C06', 'overload', 'proof', N_BUF, bufs(*BNEW, 'construct', 'config', 'statistics', 'commit'), searches=bufsearch(0, 11, 1, 14))
chk('C07', 'housekeeping', 'other', N_BUF, bufs(*BNEW, *BGC, 'flush', 'autoflush', 'config', 'destruct'), searches=bufsearch(7, 8, 9, 10, 0))

chk('C22', 'endec', 'proof', 'Complete: all values, all buffer contents, all alignments; trusts CBMC and the big-endian macros of the C library as preprocessed.', [
    Unit('endec', 'endec.c', ['ENDEC_tou16', 'ENDEC_toi16', 'ENDEC_tou32', 'ENDEC_toi32', 'ENDEC_tou64', 'ENDEC_tofloat',
         'ENDEC_todouble', 'ENDEC_fromu32', 'ENDEC_fromu64', 'ENDEC_fromdouble'], unwind=25,
         assumptions=[A_CFG]),
])

A_LIBC = 'memchr and memcpy behave as the C standard says (contracts in the harness)'
chk('C01', 'beast', 'proof', 'Loop invariant over a cut loop, any block length up to 4096 (callers pass at most 40); libc memchr/memcpy by assumed contract. A direct unwound check of small blocks stands beside it and supplies replayable inputs.', [
    Unit('beast_ind', 'beast_ind.c', ['BEAST_encode'], unwind=3, ind=True, defs=['-DMAXN=4096'], flags=['--arrays-uf-always'],
         assumptions=[A_LIBC, A_CFG, 'block length <= 4096 (every caller passes a constant of at most 40)']),
    Unit('beast_lemma', 'beast_lemma.c', [], unwind=2, replay=False),
    Unit('beast_small', 'beast_small.c', ['BEAST_encode'], kind='bounded', bound='blocks of up to 5 bytes', defs=['-DMAXIN=5'], unwind=14),
], searches=[Unit('beast_search', 'beast_small.c', ['BEAST_encode'], defs=['-DMAXIN=40'])])

RC = ['INPUT_getFrame', 'decode', 'next', 'synchronize', 'discardAndFill', 'RC_PARSER_getStatistics', 'INPUT_connect']
def rcgen(g):
    return extract.static_locals('src/radarcape/rc-parser.c', g, 'gen_rc_parser.c')
RCUW = ['havoc.0:5', 'havoc.1:48', 'havoc.2:16', 'decode.0:3', 'next.0:3', 'memchr.0:5', 'memcpy.0:5', 'cut_copy.0:8', 'catchup.0:5', 'RC_INPUT_read.0:5']
A_CHUNK1 = 'the input delivers one byte per read (unit rc_k2/rc_k3: at most 2/3 bytes per read)'
chk('C02', 'rc', 'proof', 'Four loop invariants relate the reader to a specification automaton, for streams of any length and from any buffer state; the input delivers at most 1, 2 (quick) or 3 (thorough) bytes per read.', [
    Unit('rc_ind', 'rc_ind.c', RC[:5], ind=True, defs=['-DK=1'], unwind=2, unwindset=RCUW, gen=rcgen, maxrounds=2, timeout=600, assumptions=[A_LOG, A_CHUNK1, A_LIBC,
         'locals of functions using goto are given static storage by a mechanical rewrite (CBMC merges them wrongly otherwise); no other change']),
    Unit('rc_k2', 'rc_ind.c', RC[:5], ind=True, defs=['-DK=2'], kind='bounded', bound='reads return at most 2 bytes', unwind=2, unwindset=RCUW, gen=rcgen, maxrounds=2, timeout=600, optional=True),
    Unit('rc_k3', 'rc_ind.c', RC[:5], ind=True, defs=['-DK=3'], kind='bounded', bound='reads return at most 3 bytes', unwind=2, unwindset=RCUW, gen=rcgen, maxrounds=2, timeout=3000, tier='thorough', optional=True),
], searches=[Unit('rc_search', 'rc_chunk.c', RC, gen=rcgen, defs=['-DSLEN=60', '-DFRAMES=3'])])
TP = ['TRIMBLE_PARSER_getFrame', 'decode', 'next', 'synchronize', 'discardAndFill', 'TRIMBLE_PARSER_connect']
def tpgen(g):
    return extract.static_locals('src/trimble/trimble_parser.c', g, 'gen_trimble_parser.c')
TPUW = ['havoc.0:5', 'decode.0:3', 'next.0:3', 'memchr.0:5', 'memcpy.0:5', 'catchup.0:5', 'TRIMBLE_INPUT_read.0:5']
A_STATIC = 'locals of functions using goto are given static storage by a mechanical rewrite (CBMC merges them wrongly otherwise); no other change'
chk('C03', 'trimble', 'proof', 'Loop invariants relate the packet reader to a specification automaton, for streams of any length and from any buffer state; the input delivers at most 1 byte per read (3 in the bounded unit).', [
    Unit('tp_ind', 'tp_ind.c', TP[:5], ind=True, defs=['-DK=1'], unwind=2, unwindset=TPUW, gen=tpgen, maxrounds=2, timeout=700,
         assumptions=[A_LOG, 'the input delivers one byte per read (unit tp_k2, tp_k3: at most 2, 3 bytes per read)', A_LIBC, A_STATIC]),
    Unit('tp_k2', 'tp_ind.c', TP[:5], ind=True, defs=['-DK=2'], kind='bounded', bound='reads return at most 2 bytes', unwind=2, unwindset=TPUW, gen=tpgen, maxrounds=2, timeout=500, optional=True),
    Unit('tp_k3', 'tp_ind.c', TP[:5], ind=True, defs=['-DK=3'], kind='bounded', bound='reads return at most 3 bytes', unwind=2, unwindset=TPUW, gen=tpgen, maxrounds=2, timeout=3000, tier='thorough', optional=True),
], searches=[Unit('tp_search', 'tp_chunk.c', TP, gen=tpgen, defs=['-DSLEN=40', '-DFRAMES=3', '-DCAP=40'])])

chk('C04', 'trimble_recv', 'proof', 'Decoding of every packet by its contract, for all contents; floating point bit-precise.', [
    Unit('tr_decode', 'trimble_recv.c', ['mainloop', 'parse', 'decode'], defs=['-DFPMUL'], unwind=3,
         unwindset=['TRIMBLE_PARSER_getFrame.0:70', 'be.0:9'],
         assumptions=[A_LOG, 'packets come from TRIMBLE_PARSER_getFrame by its contract (C03)', 'the position service by its contract (C14)']),
    Unit('tr_degrees', 'trimble_recv.c', ['mainloop', 'parse', 'decode'], unwind=3, flags=['--z3'], sat=None, timeout=800,
         unwindset=['TRIMBLE_PARSER_getFrame.0:70', 'be.0:9']),
], searches=[Unit('tr_search', 'trimble_recv.c', [])])

A_MSG = 'messages are framed by BEAST_encode by its contract (C01)'
A_SER = 'SERIAL_getSerial returns one of its documented results (C24)'
chk('C13', 'login', 'proof', 'All device types, serial numbers, user names and step outcomes; one and two consecutive logins.', [
    Unit('login', 'login.c', ['LOGIN_login', 'sendDeviceID', 'sendSerial', 'sendUsername'], unwind=45, assumptions=[A_LOG, A_MSG, A_SER]),
    Unit('login_again', 'login.c', ['LOGIN_login', 'sendDeviceID', 'sendSerial', 'sendUsername'], defs=['-DAGAIN'], unwind=45),
], searches=[Unit('login_search', 'login.c', [], defs=['-DAGAIN'])])

GPS = ['GPS_setPosition', 'GPS_setPositionWithFix', 'GPS_setHasFix', 'GPS_reset', 'GPS_resetNeedFlag', 'GPS_sendPosition', 'sendPosition']
chk('C14', 'gps', 'proof', 'Each operation from any state related to the specification state (inductive).', [
    Unit('gps_ind', 'gps.c', GPS, defs=['-DIND'], ind=True, unwind=98, assumptions=[A_LOG, A_MSG,
         'the lock makes the operations atomic (that every operation takes it once and releases it is an obligation)']),
    Unit('gps_hist', 'gps.c', GPS, defs=['-DSTEPS=3'], kind='bounded', bound='3 operations from the initial state', unwind=98),
    Unit('gps_recv', 'trimble_recv.c', ['mainloop', 'parse', 'decode'], defs=['-DFPMUL', '-DC14'], unwind=3, ind=True,
         unwindset=['TRIMBLE_PARSER_getFrame.0:70', 'be.0:9']),
], searches=[Unit('gps_search', 'gps.c', [], defs=['-DSTEPS=10'])])

chk('C09', 'recv', 'proof', 'The receive loop, its environment arbitrary within contracts; the loop state at every read is the specification state, so the explored iterations are the inductive step.', [
    Unit('recv', 'recv.c', ['mainloop', 'cleanup', 'cleanupInput'], defs=['-DNREAD=2'], unwind=5, timeout=600,
         assumptions=[A_LOG, 'buffer, filter and input by their contracts (C05, C08, C02)', 'the loop carries no state between iterations but its locals (checked against the specification state at each read)']),
], searches=[Unit('recv_search', 'recv.c', [], defs=['-DNREAD=10'])])

chk('C10', 'relay', 'proof', 'The relay loop, its environment arbitrary within contracts; the loop state at every wait is the specification state, so the explored iterations are the inductive step.', [
    Unit('relay', 'relay.c', ['mainloop', 'cleanup', 'sendFrame', 'sendKeepalive'], defs=['-DNCONN=2', '-DNTAKE=4'], unwind=7, timeout=600,
         assumptions=[A_LOG, 'network, buffer and login by their contracts (C15, C16, C05, C13)', 'the loop carries no state between iterations but its locals (checked against the specification state at each wait)']),
], searches=[Unit('relay_search', 'relay.c', [], defs=['-DNCONN=3', '-DNTAKE=10'])])
TBF = ['mainloop', 'processPacket', 'packetConfigureFilter', 'TB_register', 'TB_unregister']
TBU = ['main.0:7', 'mainloop.1:4', 'mainloop.0:3']
chk('C11', 'talkback', 'proof', 'The packet loop is cut by an invariant (pending bytes are the unconsumed stream bytes, at an arbitrary index); reads of any size.', [
    Unit('tb_step', 'tb.c', TBF, defs=['-DCUTS', '-DNREAD=2', '-DNCONN=1', '-DFIRST=4'], ind=True, unwind=3, unwindset=TBU + ['mainloop.2:2', 'mainloop.1:3'],
         assumptions=[A_LOG, 'memmove by its contract', 'network by its contract (C15, C16)', 'processors are registered before the component is started']),
    Unit('tb_reconnect', 'tb.c', TBF, defs=['-DCUTS', '-DNREAD=2', '-DNCONN=2', '-DFIRST=3'], ind=True, unwind=3, unwindset=TBU + ['mainloop.2:3'], timeout=800),
], searches=[Unit('tb_search', 'tb.c', TBF, defs=['-DNREAD=12', '-DNCONN=3'])])

chk('C12', 'commands', 'proof', 'All payloads of every command; the filter command inside the talkback loop.', [
    Unit('cmd_filter', 'tb.c', TBF, defs=['-DCUTS', '-DNREAD=2', '-DNCONN=1', '-DFIRST=4'], ind=True, unwind=3, unwindset=TBU + ['mainloop.2:2', 'mainloop.1:3'],
         assumptions=[A_LOG, 'filter operations by their contract (C08)', 'process services (fork, exec) do as documented', 'inet_ntop and snprintf behave as documented (executable contracts)']),
    Unit('cmd_shell', 'tb_cmd.c', ['TB_reverseShell'], defs=['-DCMDLO=0', '-DCMDHI=0'], unwind=25),
    Unit('cmd_other', 'tb_cmd.c', ['TB_restartDaemon', 'TB_rebootSystem', 'TB_upgradeDaemon'], defs=['-DCMDLO=1', '-DCMDHI=3'], unwind=33),
], searches=[Unit('cmd_search', 'tb_cmd.c', [], defs=['-DCMDLO=0', '-DCMDHI=3']), Unit('cmdf_search', 'tb.c', TBF, defs=['-DNREAD=12', '-DNCONN=3'])])

NET = ['mainloop', 'cleanupMain', 'closeSocket', 'tryConnect', 'emitDisconnect', 'NET_waitConnected', 'NET_forceDisconnect', 'NET_checkConnected', 'trySend', 'NET_send', 'NET_receive', 'NET_getStatistics']
A_NET = ['sockets by their contract: a shut down socket fails; the connection may fail at any time', A_LOG,
         'NET_forceDisconnect and NET_checkConnected are not called while another thread is sending (documented precondition)',
         'the connection component is stopped after its users (C21)']
def ncgen(g):
    return extract.static_locals('src/util/net_common-posix.c', g, 'gen_net_common.c')
chk('C15', 'network', 'proof', 'Resource invariant over the state protected by the lock, with rely and guarantee between sender, receiver and connector: any number of threads, any schedule, any history.', [
    Unit('net', 'net.c', NET, ind=True, unwind=5, timeout=800, assumptions=A_NET),
    Unit('netc', 'netc.c', ['NETC_connect'], kind='bounded', bound='hosts with up to 3 addresses', defs=['-DNHOST=3'], gen=ncgen, unwind=7),
    Unit('netc_1', 'netc.c', ['NETC_connect'], kind='bounded', bound='hosts with 1 address', defs=['-DNHOST=1'], gen=ncgen, unwind=7),
], searches=[Unit('net_search', 'net.c', []), Unit('netc_search', 'netc.c', [], defs=['-DNHOST=4'])])
chk('C16', 'transfer', 'proof', 'Send loop cut by an invariant; any block length, any partial sends, any schedule (with the resource invariant of C15).', [
    Unit('net_io', 'net.c', NET, ind=True, unwind=5, timeout=800, assumptions=A_NET),
], searches=[Unit('net_search', 'net.c', [])])
HOOKS = dict(guard="OPENSKY_VERIF", enable="the checks compile the sources with -DOPENSKY_VERIF and define VERIF_CUT(id), the loop cut points; without it VERIF_CUT expands to nothing", source_commits=["50ee6bf", "6ff1814", "a1526d5", "6c70081"])
