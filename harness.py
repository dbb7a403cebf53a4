# Harnesses (binaries) and the properties they decide.
DEFAULTS = {
    'san': 'address',
    'exclude': ['util/*winsock*', 'util/port/*windows*', 'util/log_*'],
}
CORE = ['core/*.c', 'util/*.c', 'util/port/*.c']
LOG = 'props/stub_log.cc'

def wraps(*n):
    return ['-Wl,--wrap=' + x for x in n]
MEM = 'props/memtrack.cc'
MEMTRACK_LD = wraps('malloc', 'calloc', 'realloc', 'free', 'strdup')
SCHED = 'props/sched.cc'
SCHED_LD = wraps('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait',
    'pthread_cond_broadcast', 'pthread_cond_signal', 'pthread_mutex_trylock', 'pthread_testcancel', 'sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'clock_gettime', 'gettimeofday', 'time')

DAEMON_LD = SCHED_LD + wraps('pthread_create', 'pthread_join', 'pthread_cancel', 'pthread_timedjoin_np', 'pthread_setname_np',
    'getaddrinfo', 'freeaddrinfo', 'socket', 'connect', 'send', 'recv', 'shutdown', 'close', 'sigwait', 'ioctl', 'fopen', 'fopen64',
    'BUFFER_getStatistics', 'NET_getStatistics', 'FILTER_getStatistics')
FEEDER = ['dump1090/dump1090.c', 'dump1090/req-serial.c', 'dump1090/position.c', 'radarcape/rc-parser.c', 'radarcape/network.c']
def daemon(extra, *defs):
    return dict(src=['props/daemon.cc', LOG, SCHED], repo=FEEDER + extra, archive=CORE, ld=DAEMON_LD + wraps('fork', 'execve'), rflags=['-Dmain=daemon_main'],
        defs=['SCHED_THREADS', 'SYSCONFDIR="etc"', 'LOCALSTATEDIR="var"'] + list(defs))
RADARCAPE = ['radarcape/main.c', 'radarcape/rc-parser.c', 'radarcape/network.c', 'trimble/trimble_recv.c', 'trimble/trimble_parser.c', 'trimble/trimble_input_network.c']
STANDALONE = ['radarcape/main.c', 'radarcape/rc-parser.c', 'radarcape/uart.c', 'trimble/trimble_recv.c', 'trimble/trimble_parser.c', 'trimble/trimble_input_uart.c',
    'radarcape/fpga.c', 'radarcape/gpio.c', 'radarcape/watchdog.c', 'radarcape/tb-misc.c', 'radarcape/tb-rshell.c']

MEM_POINTS = ['bufsched', 'gpsrace', 'reqserial', 'connect', 'feeder', 'donated', 'kit', 'radarcape', 'standalone', 'rcnet', 'gpsnet', 'rcnetsel', 'gpsnetsel', 'logstdio', 'logrc', 'loggp', 'rcconf', 'network', 'networksel', 'fpga', 'wdmain']
UART_LD = wraps('open', 'open64', 'close', 'tcgetattr', 'tcsetattr', 'tcdrain', 'read', 'write', 'poll', 'sleep')

HARNESSES = {
    'rcparser': dict(src=['props/rcparser.cc', LOG], repo=['radarcape/rc-parser.c'], archive=CORE),
    'codec': dict(src=['props/codec.cc', LOG], archive=CORE),
    'buffer': dict(src=['props/buffer.cc', LOG, MEM], archive=CORE,
        ld=MEMTRACK_LD + wraps('clock_gettime', 'gettimeofday', 'pthread_cond_timedwait', 'pthread_cond_wait', 'sleep')),
    'bufconc': dict(src=['props/bufconc.cc', LOG], archive=CORE, san='thread',
        ld=wraps('pthread_mutex_lock', 'pthread_mutex_unlock')),
    'filter': dict(src=['props/filter.cc', LOG], archive=CORE),
    'recv': dict(src=['props/recv.cc', LOG], repo=['radarcape/rc-parser.c'], archive=CORE),
    'login': dict(src=['props/login.cc', LOG], archive=CORE),
    'gpsrace': dict(src=['props/gpsrace.cc', LOG, SCHED], archive=CORE, ld=SCHED_LD),
    'bufsched': dict(src=['props/bufsched.cc', LOG, SCHED], archive=CORE, ld=SCHED_LD),
    'tb': dict(src=['props/tb.cc', LOG], archive=CORE),
    'remote': dict(src=['props/remote.cc', LOG], repo=['radarcape/rc-parser.c'], archive=CORE, defs=['INPUT_RADARCAPE_UART']),
    'proc': dict(src=['props/proc.cc', LOG], repo=['radarcape/tb-rshell.c', 'radarcape/tb-misc.c'], archive=CORE, ld=wraps('execve', 'fork')),
    'procsd': dict(src=['props/proc.cc', LOG], repo=['radarcape/tb-rshell.c', 'radarcape/tb-misc.c'], archive=CORE, defs=['WITH_SYSTEMD="/usr/bin"', 'WITH_PACMAN'], ld=wraps('execve', 'fork', 'fopen', 'fopen64')),
    'relay': dict(src=['props/relay.cc', LOG], archive=CORE, ld=wraps('clock_gettime', 'gettimeofday', 'pthread_cond_timedwait')),
    'config': dict(src=['props/config.cc', LOG], archive=CORE, ld=wraps('mmap', 'munmap', 'scandir', 'readdir')),
    'component': dict(src=['props/component.cc', LOG], archive=CORE, ld=wraps('pthread_create', 'pthread_cancel', 'pthread_join', 'pthread_timedjoin_np', 'pthread_setname_np')),
    'trimble': dict(src=['props/trimble.cc', LOG], repo=['trimble/trimble_parser.c', 'trimble/trimble_recv.c'], archive=CORE, defs=['_GNU_SOURCE']),
    'rclib': dict(src=['props/libs.cc', LOG], repo=['radarcape/lib/opensky.cc'], archive=CORE, defs=['LIB', 'PREFIX="OpenSky"']),
    'gplib': dict(src=['props/libs.cc', LOG], repo=['gplib/opensky.cc'], archive=CORE, defs=['LIB', 'PREFIX="OpenSky"', 'GPLIB']),
    'list': dict(src=['props/list.cc', 'props/list_ops.c', 'props/list_ops2.c', LOG]),
    'serialeth': dict(src=['props/serialeth.cc', LOG], archive=CORE, ld=wraps('socket', 'ioctl', 'fopen', 'fopen64')),
    'reqserial': dict(src=['props/reqserial.cc', LOG, SCHED], repo=['dump1090/req-serial.c'], archive=CORE, defs=['LOCALSTATEDIR="/vstate"'], ld=SCHED_LD + wraps('fopen', 'fopen64')),
    'fpga': dict(src=['props/fpga.cc', LOG, SCHED], repo=['radarcape/fpga.c', 'radarcape/gpio.c', 'radarcape/watchdog.c'], archive=CORE, defs=['FWDIR="fw"'], ld=SCHED_LD + wraps('open', 'open64', 'mmap', 'mmap64', 'munmap', 'close', 'usleep', 'nanosleep')),
    'wdmain': dict(src=['props/fpga.cc', LOG, SCHED], repo=['radarcape/wd-main.c', 'radarcape/fpga.c', 'radarcape/gpio.c', 'radarcape/watchdog.c'], archive=CORE, defs=['FWDIR="fw"', 'WDMAIN'], rflags=['-Dmain=daemon_main'],
        ld=SCHED_LD + wraps('open', 'open64', 'mmap', 'mmap64', 'munmap', 'close', 'usleep', 'nanosleep', 'getuid', 'geteuid', 'getpwnam_r', 'getgrnam_r', 'setgroups', 'setgid', 'setuid', 'sysconf', 'chdir')),
    'connect': dict(src=['props/connect.cc', LOG, SCHED, MEM], archive=CORE, ld=SCHED_LD + MEMTRACK_LD + wraps('getaddrinfo', 'freeaddrinfo', 'socket', 'connect', 'close')),
    'feeder': daemon(['dump1090/devtype.c']),
    'radarcape': dict(src=['props/daemon.cc', LOG, SCHED], repo=RADARCAPE, archive=CORE, ld=DAEMON_LD, rflags=['-Dmain=daemon_main'],
        defs=['SCHED_THREADS', 'RADARCAPE', 'INPUT_RADARCAPE_NETWORK', 'SYSCONFDIR="etc"', 'LOCALSTATEDIR="var"']),
    'standalone': dict(src=['props/daemon.cc', LOG, SCHED], repo=STANDALONE, archive=CORE, rflags=['-Dmain=daemon_main'],
        ld=DAEMON_LD + wraps('open', 'open64', 'tcgetattr', 'tcsetattr', 'tcflush', 'tcdrain', 'read', 'write', 'poll', 'usleep', 'nanosleep', 'fork', 'execve', 'mmap', 'mmap64', 'munmap'),
        defs=['SCHED_THREADS', 'RADARCAPE', 'STANDALONE', 'INPUT_RADARCAPE_UART', 'WITH_SYSTEMD="/usr/bin"', 'WITH_PACMAN', 'FWDIR="fw"', 'SYSCONFDIR="etc"', 'LOCALSTATEDIR="var"']),
    'donated': daemon(['radarcape/tb-rshell.c'], 'DUMP1090_DONATED'),
    'kit': daemon([], 'DUMP1090_KIT'),
    'dummy': dict(src=['props/dummy.cc', LOG], repo=['radarcape/dummy.c', 'radarcape/rc-parser.c'], archive=CORE, ld=wraps('clock_gettime', 'random', 'usleep', 'nanosleep', 'clock_nanosleep', 'RC_INPUT_read')),
    # without sanitizers: what is on the stack is under control of the harness
    'dummyraw': dict(src=['props/dummy.cc', LOG], repo=['radarcape/dummy.c', 'radarcape/rc-parser.c'], archive=CORE, san='none', defs=['RAW'], ld=wraps('clock_gettime', 'random', 'usleep', 'nanosleep', 'clock_nanosleep', 'RC_INPUT_read')),
    'rcnet': dict(src=['props/inputnet.cc', LOG, SCHED], repo=['radarcape/network.c'], archive=CORE, ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close')),
    'gpsnet': dict(src=['props/inputnet.cc', LOG, SCHED], repo=['trimble/trimble_input_network.c'], archive=CORE, defs=['TRIMBLE', '_GNU_SOURCE'], ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close')),
    'rcnetsel': dict(src=['props/inputnet.cc', LOG, SCHED], repo=['radarcape/network.c'], archive=CORE, defs=['NO_CANCELLATION_POINTS'], ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close', 'select')),
    'gpsnetsel': dict(src=['props/inputnet.cc', LOG, SCHED], repo=['trimble/trimble_input_network.c'], archive=CORE, defs=['TRIMBLE', '_GNU_SOURCE', 'NO_CANCELLATION_POINTS'], ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close', 'select')),
    'logstdio': dict(src=['props/log.cc', SCHED], repo=['util/log_stdio.c'], exclude=[], defs=['STDIO'], ld=SCHED_LD),
    'logrc': dict(src=['props/log.cc', SCHED], repo=['radarcape/lib/log_lib.cc'], exclude=[], defs=['LIB', 'PREFIX="OpenSky"'], ld=SCHED_LD),
    'loggp': dict(src=['props/log.cc', SCHED], repo=['gplib/log_lib.cc'], exclude=[], defs=['LIB', 'PREFIX="OpenSky"', 'GPLIB'], ld=SCHED_LD),
    'rcuart': dict(src=['props/uart.cc', LOG], repo=['radarcape/uart.c'], archive=CORE, defs=['_GNU_SOURCE'], ld=UART_LD),
    'gpsuart': dict(src=['props/uart.cc', LOG], repo=['trimble/trimble_input_uart.c'], archive=CORE, defs=['_GNU_SOURCE', 'TRIMBLE'], ld=UART_LD),
    'rcconf': dict(src=['props/rcconf.cc', LOG, SCHED], repo=['radarcape/rc-parser.c', 'radarcape/uart.c'], archive=CORE, defs=['INPUT_RADARCAPE_UART'],
        ld=SCHED_LD + wraps('open', 'open64', 'close', 'tcgetattr', 'tcsetattr', 'tcflush', 'read', 'write', 'poll')),
    'network': dict(src=['props/network.cc', LOG, SCHED], archive=CORE, ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close')),
    # as configured --without-pthreadCancellationPoints
    'networksel': dict(src=['props/network.cc', LOG, SCHED], archive=CORE, defs=['NO_CANCELLATION_POINTS'], ld=SCHED_LD + wraps('send', 'recv', 'shutdown', 'close', 'select')),
}

# property -> harness -> list of sub checks ([] = all) or {only, weight}
PROPERTIES = {
    'C01': dict(run={'rcparser': ['c01_decode_exact']}),
    'C02': dict(run={'rcparser': ['c02_recovery']}),
    'C04': dict(run={'buffer': []}),
    'C05': dict(run={'bufconc': [], 'bufsched': []}),
    'C06': dict(run={'filter': []}),
    'C03': dict(run={'codec': []}),
    'C10': dict(run={'login': ['login_messages']}),
    'C11': dict(run={'login': ['gps_report'], 'gpsrace': []}),
    'C12': dict(run={'tb': []}),
    'C13': dict(run={'remote': []}),
    'C14': dict(run={'proc': [], 'procsd': []}),
    'C08': dict(run={'relay': []}),
    'C09': dict(run={'network': [], 'networksel': []}),
    'C15': dict(run={'config': ['cfg_parse']}),
    'C16': dict(run={'config': ['cfg_robust']}),
    'C17': dict(run={'config': ['cfg_write']}),
    'C18': dict(run={'config': ['cfg_directory']}),
    'C19': dict(run={'component': []}),
    'C07': dict(run={'recv': []}),
    'C20': dict(run={'trimble': []}),
    'C21': dict(run={'rclib': []}),
    'C22': dict(run={'gplib': []}),
    'C23': dict(run={'list': []}),
    'C25': dict(run={'serialeth': []}),
    'C24': dict(run={'reqserial': []}),
    'C26': dict(run={'fpga': []}),
    'C27': dict(run={'connect': []}),
    'C28': dict(run={'feeder': ['c28_configuration'], 'donated': ['c28_configuration'], 'kit': ['c28_configuration']}),
    'C38': dict(run={'feeder': ['c38_package'], 'donated': ['c38_package'], 'kit': ['c38_package']}),
    'C30': dict(run={'feeder': ['c30_end_to_end'], 'donated': dict(only=['c30_end_to_end'], cases=(2000, 60000)), 'kit': dict(only=['c30_end_to_end'], cases=(500, 20000))}),
    'C29': dict(run={'dummy': [], 'dummyraw': ['dummy_uninitialized']}),
    'C32': dict(run={'feeder': dict(only=['c32_statistics'], weight=6), 'buffer': dict(only=['c04_sequential'], cases=(3000, 60000)), 'filter': dict(cases=(5000, 100000)),
        'rcparser': dict(only=['c01_decode_exact'], cases=(8000, 100000)), 'network': dict(cases=(3000, 60000))}),
    'C33': dict(run={'logstdio': [], 'logrc': [], 'loggp': []}),
    'C34': dict(run={'rcuart': [], 'gpsuart': []}),
    'C35': dict(run={'radarcape': []}),
    'C39': dict(run={'standalone': []}),
    'C36': dict(run={'rcconf': []}),
    'C37': dict(run={'wdmain': []}),
    'C31': dict(run={'rcnet': [], 'gpsnet': [], 'rcnetsel': [], 'gpsnetsel': []}),
}

# accesses of the code under test to shared memory are scheduling points, too (see props/sched.cc)
for _h in MEM_POINTS:
    HARNESSES[_h] = dict(HARNESSES[_h])
    HARNESSES[_h]['defs'] = HARNESSES[_h].get('defs', []) + ['SCHED_MEM']
    HARNESSES[_h]['rflags'] = HARNESSES[_h].get('rflags', []) + ['-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores']
