"""Which simulation binary decides which property, and how long."""
TIERS = {'quick': 20, 'thorough': 600}

_STUB = ['Fast DDS logging module (stubs/fastdds/dds/log/Log.hpp: same interface and threading model)',
         'pthreads, condition variables, clocks, sleeps, heap and process signals (sim/rt.cpp)']
GROUPS = {
    'data': {
        'harness': ['memory.cpp', 'database.cpp'],
        'real': ['OwnerPtr, LesseePtr, GuardedPtr, InternalPtrData', 'SafeDatabase, SafeDatabaseIterator'],
        'stub': _STUB},
    'event': {
        'harness': ['event.cpp'],
        'real': ['EventHandler, PeriodicEventHandler, SignalEventHandler, SignalManager, MultipleEventHandler', 'WaitHandlers and Singleton below them'],
        'stub': _STUB},
    'file': {
        'harness': ['file.cpp'],
        'real': ['FileWatcherHandler, FileWatcher, thirdparty FileWatch', 'EventHandler below them'],
        'stub': _STUB + ['inotify and file attributes (inotify_init, inotify_add_watch, inotify_rm_watch, read, stat)']},
    'logging': {
        'harness': ['logging.cpp'],
        'real': ['LogEventHandler, LogSevereEventHandler, LogConsumerConnection, LogChecker, BaseLogConsumer, StdLogConsumer', 'EventHandler and OwnerPtr below them'],
        'stub': _STUB},
    'pool': {
        'harness': ['pool.cpp'],
        'real': ['SlotThreadPool, Task, TaskId, CustomThread', 'DBQueueWaitHandler, CounterWaitHandler, DBQueue below them'],
        'stub': _STUB},
    'stdin': {
        'harness': ['stdin.cpp'],
        'real': ['StdinEventHandler, CommandHistoryHandler, CommandReader, EnumBuilder', 'EventHandler, CounterWaitHandler, DBQueueWaitHandler below them'],
        'stub': _STUB + ['standard input, terminal mode and size (getchar, tcsetattr, ioctl)']},
    'util': {
        'harness': ['util.cpp', 'helpers.cpp'],
        'real': ['UnboundedPool, IPool', 'Singleton, SafeInitializableSingleton', 'TSafeRandomManager, Atomicable', 'Timer, PausableTimer, time_utils'],
        'stub': _STUB},
    'wait': {
        'harness': ['wait.cpp'],
        'real': ['WaitHandler, BooleanWaitHandler, IntWaitHandler, CounterWaitHandler, ConsumerWaitHandler, DBQueueWaitHandler, DBQueue'],
        'stub': _STUB},
}
PROPS = {}


def _reg(group, *ids, **kw):
    for i in ids:
        PROPS[i] = dict(group=group, **kw)


_reg('wait', 'W01', 'W02', 'W03', 'W04', 'W05', 'Q01', 'Q02')
_reg('event', 'E01', 'E02', 'E03', 'E04', 'E05')
_reg('logging', 'L01', 'L02')
_reg('data', 'M01', 'D01', 'D02')
_reg('pool', 'T01', 'T02', 'T03')
_reg('util', 'U01', 'P01', 'S01', 'R01', 'K01', 'K02')
_reg('stdin', 'I01', 'I02', 'I03')
_reg('file', 'F01', 'F02')
_reg('py', 'Y01', 'Y02', 'Y03', 'Y04')
