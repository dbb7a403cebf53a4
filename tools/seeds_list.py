SEEDS = {
'buffer-dynpools': dict(property='C04', edit={'src/core/buffer.c': [("	} else if (LIST_length(&dynPools) < dynMaxPools && createDynPool()) {", "	} else if (stats.dynPoolsAll < dynMaxPools && createDynPool()) {")]},
    srcs=['core/buffer.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='history with garbage collection: pools are created, collected and destroyed, then the backlog grows again', breaks='frames are discarded although the configuration allows more dynamic pools'),
'gps-retry': dict(property='C11', edit={'src/core/gps.c': [("			needPosition = !sendPosition(&position);\n			if (needPosition)\n", "			needPosition = false;\n			if (!sendPosition(&position))\n")]},
    srcs=['core/gps.c', 'core/beast.c'], needs='a login without position, then a position while sending fails, then another update', breaks='a deferred position is never sent if the first attempt to send it failed'),
'comp-progress': dict(property='C19', edit={'src/util/component.c': [("				progress |= ci->state != COMPONENT_STATE_STARTED;", "				progress = ci->state != COMPONENT_STATE_STARTED;")]},
    srcs=['util/component.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='two components whose stop is deferred; in one round the second one in stop order makes progress, but not the other one', breaks='components stay started although retrying would have stopped them'),
'gplib-rssi': dict(property='C22', edit={'src/gplib/opensky.cc': [("	len += BEAST_encode(out->raw + len, reinterpret_cast<std::uint8_t*>(&rssi),\n			sizeof rssi);\n", "	out->raw[len++] = static_cast<std::uint8_t>(rssi);\n")]},
    srcs=['core/beast.c'], needs='a frame with signal level 26 (0x1a)', breaks='the signal level is not escaped, the server sees a broken frame'),
'tb-maxlen': dict(property='C12', edit={'src/core/tb.c': [("frame.len > 128 ||", "frame.len >= sizeof buf ||")]},
    srcs=['core/tb.c'], needs='a talkback packet of the maximum length 128 followed by other packets', breaks='packets following a packet of maximum length are lost'),

'parser-peek': dict(property='C02', edit={'src/radarcape/rc-parser.c': [("""			if (unlikely(bufCur == bufEnd && !discardAndFill()))
				return DECODE_STATUS_CONNFAIL;
			if (likely(*bufCur == BEAST_SYNC)) {""", """			const bool refill = bufCur == bufEnd;
			if (unlikely(refill && !discardAndFill()))
				return DECODE_STATUS_CONNFAIL;
			if (likely(*bufCur == BEAST_SYNC || refill)) {""")]},
    srcs=['radarcape/rc-parser.c'], needs='a frame which is cut off (followed by the beginning of the next frame), where a read ends exactly behind the synchronization byte', breaks='garbage is passed as a frame and the next frame is lost'),
'relay-cancel': dict(property='C08', edit={'src/core/relay.c': [("	if (*frame)\n		BUF_putFrame(*frame);", "	if (*frame)\n		BUF_releaseFrame(*frame);")]},
    srcs=['core/relay.c'], needs='the feeder is stopped while a frame is being sent', breaks='the frame is lost instead of being sent after a restart'),
'filter-df31': dict(property='C06', edit={'src/core/filter.c': [("	MODES_TYPE_ALL = ~0,", "	MODES_TYPE_ALL = 0x7fffffff,")]},
    srcs=['core/filter.c'], needs='a Mode-S frame of type 31 while all types are let through', breaks='frames of that type are dropped'),
'proc-signal': dict(property='C14', edit={'src/util/proc.c': [("	return WIFEXITED(status) && WEXITSTATUS(status) == 0;", "	return WEXITSTATUS(status) == 0;")]},
    srcs=['util/proc.c'], needs='the executed program is killed by a signal', breaks='the failure is reported as success, the upgrade goes on with restarting the daemon'),
'uart-iflag': dict(property='C34', edit={'src/radarcape/uart.c': [("	t.c_iflag = IGNPAR;", "	t.c_iflag |= IGNPAR;")]},
    srcs=['radarcape/uart.c'], ld='-Wl,--wrap=open -Wl,--wrap=tcgetattr -Wl,--wrap=tcsetattr -Wl,--wrap=tcflush', needs='a line whose driver or a program used before left input translation enabled (ICRNL, IXON, ISTRIP)', breaks='received bytes are altered or swallowed'),
'net-leak': dict(property='C09', edit={'src/core/network.c': [("""			logDisconnect();
			SOCK_shutdown(*mysock, SHUT_RDWR);
			SOCK_close(*mysock);
			*mysock = SOCK_INVALID;""", """			logDisconnect();
			SOCK_shutdown(*mysock, SHUT_RDWR);
			*mysock = SOCK_INVALID;""")]},
    srcs=['core/network.c'], needs='the receiver notices two failures of the connection in a row before the sender notices the first one', breaks='a file descriptor is leaked each time, the daemon finally cannot connect any more'),
'serial-rounds': dict(property='C24', edit={'src/dump1090/req-serial.c': [("""					++rounds;
					ts.tv_sec += 2;""", """					++rounds;""")]},
    flags='-DLOCAL_FILES', srcs=['dump1090/req-serial.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='the server does not answer the request within two seconds', breaks='the waiting time is only 2 seconds instead of a minute: the connection is given up without waiting for the answer'),
'serialeth-cast': dict(property='C25', edit={'src/util/serial_eth.c': [("be32toh(serial_be) & 0x7fffffff", "be32toh(serial_be & 0x7fffffff)")]},
    srcs=['util/serial_eth.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], ld='-Wl,--wrap=ioctl', needs='a MAC address whose third byte or sixth byte has the most significant bit set', breaks='the serial number is wrong: negative or not derived from the lower 31 bits'),
'pos-altitude': dict(property='C28', edit={'src/dump1090/position.c': [("			.given = &hasAltitude,", "			.given = &hasLatitude,")]},
    srcs=['dump1090/position.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='a configuration with latitude and longitude but without altitude', breaks='the feeder starts with an incomplete position and reports altitude 0'),
'gplib-day': dict(property='C22', edit={'src/gplib/opensky.cc': [("(timestamp / UINT64_C(1000000000)) % (24u * 3600u);", "static_cast<std::uint32_t>(timestamp / 1000) / 1000000u % (24u * 3600u);")]},
    srcs=['core/beast.c'], needs='a timestamp of more than about 71 minutes (microseconds do not fit into 32 bit)', breaks='the time stamp of frames is wrong'),
'stat-snapshot': dict(property='C32', edit={'src/util/statistics.c': [("	memcpy(lastSnapshot, &snapshot, sizeof snapshot);", "	lastSnapshot->timestamp = snapshot.timestamp;\n	lastSnapshot->filter = snapshot.filter;")]},
    srcs=['util/statistics.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='a second report in the same run', breaks='the rate of all frames since the last report is computed wrongly'),
'buffer-spurious': dict(property='C05', edit={'src/core/buffer.c': [('\twhile (LIST_empty(&queue)) {\n\t\tint r = pthread_cond_timedwait(&cond, &mutex, &ts);', '\tif (LIST_empty(&queue)) {\n\t\tint r = pthread_cond_timedwait(&cond, &mutex, &ts);')]}, srcs=['core/buffer.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], ld='-Wl,--wrap=pthread_cond_timedwait', needs='a spurious wake-up of the waiting consumer, or a flush between the commit and the wake-up', breaks='the consumer takes the anchor of the empty queue for a frame'),
'cfg-wint': dict(property='C17', edit={'src/util/cfgfile.c': [('"%" PRIu32 "\\n", val->integer', '"%" PRId32 "\\n", (int32_t)val->integer')]}, srcs=['util/cfgfile.c', 'util/port/mmap-posix.c'], needs='an integer option of 2^31 or more (e.g. a serial number)', breaks='the number is written as negative number, which cannot be read again'),
'cfg-dirsub': dict(property='C18', edit={'src/util/cfgfile.c': [('\treturn idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;', '\treturn (int)(idx_a - idx_b);')]}, srcs=['util/cfgfile.c', 'util/port/mmap-posix.c'], needs='file numbers more than 2^31 apart, e.g. 10-a.conf and 20170131235959-b.conf', breaks='the files are read in the wrong order, the wrong value wins'),
'cfg-maxstr': dict(property='C15', edit={'src/util/cfgfile.c': [('if (valLen > sz - 1) {', 'if (valLen >= sz - 1) {')]}, srcs=['util/cfgfile.c', 'util/port/mmap-posix.c'], needs='a string of exactly the maximum length', breaks='the string is replaced by the default'),
'rc-keep': dict(property='C21', edit={'src/radarcape/lib/opensky.cc': [('\tOpenSky::gpsTimeStatus = gpsTimeStatus;\n', '\tif (running)\n\t\tOpenSky::gpsTimeStatus = gpsTimeStatus;\n')]}, srcs=['core/beast.c'], needs='the time status changes while the feeder is disabled, then it is enabled', breaks='the feeder starts with an outdated synchronization state'),
'netc-fam': dict(property='C27', edit={'src/util/net_common-posix.c': [('\t\t\t\t"%d for host \'%s\'", host->ai_family, hostName);\n\t\t\tcontinue;', '\t\t\t\t"%d for host \'%s\'", host->ai_family, hostName);\n\t\t\t--nHosts;\n\t\t\tcontinue;')]}, srcs=['util/net_common-posix.c', 'util/util.c'], ld='-Wl,--wrap=getaddrinfo -Wl,--wrap=freeaddrinfo -Wl,--wrap=socket -Wl,--wrap=connect', needs='a host with an address of an unknown family, which is not the last one tried', breaks='an address is not tried although the others failed'),
'wd-priv': dict(property='C37', edit={'src/util/util.c': [('\tif (setgid(g_nobody)) {}\n\tif (setuid(u_nobody)) {}', '\tif (setuid(u_nobody)) {}\n\tif (setgid(g_nobody)) {}')]}, srcs=['util/util.c'], ld='-Wl,--wrap=setgid -Wl,--wrap=setuid -Wl,--wrap=setgroups -Wl,--wrap=getuid', needs='the watchdog is run as root', breaks='the group of root is kept, as the user has lost the right to change it before'),
'log-nl': dict(property='C33', edit={'src/util/log_stdio.c': [('\t\tprintf(": Unknown Error (%d)", err);\n\tputchar(\'\\n\');\n\n\tpthread_mutex_unlock(&stdioMutex);', '\t\tprintf(": Unknown Error (%d)", err);\n\n\tpthread_mutex_unlock(&stdioMutex);\n\tputchar(\'\\n\');')]}, srcs=['util/log_stdio.c'], ld='-Wl,--wrap=pthread_mutex_unlock', needs='two threads log at the same time, one of them an error', breaks='lines are mixed'),
'dum-trunc': dict(property='C29', edit={'src/radarcape/dummy.c': [('\tptr += BEAST_encode(ptr, mbuf, 15);', '\tencode(&ptr, mbuf, 7);\n\tptr += BEAST_encode(ptr, mbuf + 7, 8) & 0xf;')]}, srcs=['radarcape/dummy.c', 'core/beast.c'], ld='-Wl,--wrap=random -Wl,--wrap=usleep -lm', needs='a random sequence where the last eight bytes of a frame have to be escaped', breaks='frames are cut off'),
'tr-crit': dict(property='C20', edit={'src/trimble/trimble_recv.c': [('uint16_t critAlarms = ENDEC_tou16(buf + 8);', 'uint8_t critAlarms = ENDEC_tou16(buf + 8);')]}, srcs=['trimble/trimble_recv.c'], needs='a critical alarm with number 8 or higher', breaks='a position is accepted although the receiver signals an alarm'),
'recv-null': dict(property='C07', edit={'src/core/recv.c': [('\t\t\t\tBUF_abortFrame(frame);\n\t\t\t\tframe = NULL;\n\t\t\t\tbreak;', '\t\t\t\tBUF_abortFrame(frame);\n\t\t\t\tbreak;')]}, srcs=['core/recv.c'], needs='the daemon is stopped after the receiver was lost, before it is connected again', breaks='the same frame is given back twice'),
'list-taint': dict(property='C23', edit={'src/util/list.h': [('\t\tLIST_concatenateUnshiftD(&dst->listD, &src->listD);\n\t\tdst->tainted = dst->tainted || src->tainted;', '\t\tLIST_concatenateUnshiftD(&dst->listD, &src->listD);\n\t\tdst->tainted = src->tainted;')]}, srcs=['core/beast.c'], needs='a list is separated lazily and, before its length is asked for, a counted list is prepended to it', breaks='the length of the list is wrong from then on'),
'login-maxuser': dict(property='C10', edit={'src/core/login.c': [('if (len > OPENSKY_MAX_USERNAME) {', 'if (len >= OPENSKY_MAX_USERNAME) {')]}, srcs=['core/login.c', 'core/beast.c'], needs='a user name of exactly 40 characters', breaks='the user name is not sent'),
'tb-mask': dict(property='C13', edit={'src/core/tb.c': [('\tif (mask & FILT_RESET_SYNC)', '\tif (mask & cfg & FILT_RESET_SYNC)')]}, srcs=['core/tb.c'], needs='a filter packet asking for a reset in its mask only', breaks='the synchronization is not reset'),
'beast-last': dict(property='C03', edit={'src/core/beast.c': [('\t\t\t*ptr = BEAST_SYNC;\n\t\t\treturn ptr + 1 - out;', '\t\t\t*ptr = BEAST_SYNC;\n\t\t\treturn ptr + (len > 1) - out;')]}, srcs=['core/beast.c'], needs='a single byte 0x1a is escaped on its own', breaks='it is not doubled'),
'fpga-resume': dict(property='C26', edit={'src/radarcape/fpga.c': [('\toff_t pos;\n\tfor (pos = 0; pos < size; ++pos) {', '\tstatic off_t pos;\n\tif (pos == size)\n\t\tpos = 0;\n\tfor (; pos < size; ++pos) {')]}, flags='-DFWDIR=\\"/nowhere\\"', srcs=['radarcape/fpga.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='the device reports an error in the middle of the first attempt', breaks='the second attempt continues in the middle of the file although the device was reset'),
'rcn-reset': dict(property='C31', edit={'src/radarcape/network.c': [('"Could not receive from network");\n\t\tcloseConn();', '"Could not receive from network");\n\t\tsock = SOCK_INVALID;')]}, srcs=['radarcape/network.c'], needs='the receiver resets the connection', breaks='the descriptor is leaked'),
'parser-stale': dict(property='C01', edit={'src/radarcape/rc-parser.c': [('\tbufCur = buf;\n\tbufEnd = bufCur;\n', '\tbufCur = buf;\n\tif (!bufEnd)\n\t\tbufEnd = bufCur;\n')]}, srcs=['radarcape/rc-parser.c'], needs='the connection to the receiver is lost and comes back', breaks='what was read last is decoded once more after the reconnect'),
'cfg-wsback': dict(property='C16', edit={'src/util/cfgfile.c': [('while (l > key && isspace(*l))', 'while (isspace(*l))')]}, srcs=['util/cfgfile.c', 'util/port/mmap-posix.c'], ld='-Wl,--wrap=mmap -Wl,--wrap=munmap', needs='a line with blanks only before the equals sign in a file whose size is a multiple of the page size', breaks='the length of the name gets negative: the whole rest of the file and the memory behind it is taken for the name in the warning'),
'feeder-order': dict(property='C30', edit={'src/dump1090/dump1090.c': [('\tbool cfgVar = CFG_readDirectory(LOCALSTATEDIR "/conf.d", true, true, true,\n\t\tfalse);\n\tbool cfgEtc = CFG_readDirectory(SYSCONFDIR "/conf.d", true, true, true,\n\t\tfalse);', '\tbool cfgEtc = CFG_readDirectory(SYSCONFDIR "/conf.d", true, true, true,\n\t\tfalse);\n\tbool cfgVar = CFG_readDirectory(LOCALSTATEDIR "/conf.d", true, true, true,\n\t\tfalse);')]}, flags='-DLOCAL_FILES -Dmain=daemon_main',
    srcs=['dump1090/dump1090.c', 'dump1090/req-serial.c', 'dump1090/position.c', 'dump1090/devtype.c', 'radarcape/rc-parser.c', 'radarcape/network.c'] + ['core/%s.c' % c for c in 'beast buffer filter gps login network recv relay tb'.split()] + ['util/%s.c' % c for c in 'cfgfile component log_stdio net_common-posix proc statistics util port/mmap-posix'.split()],
    needs='a serial number received and stored earlier, and another one in the configuration', breaks='the feeder logs in with the stored serial number instead of the one configured'),
'tr-stale': dict(property='C35', edit={'src/trimble/trimble_recv.c': [('\twhile (true) {\n\t\tTRIMBLE_PARSER_connect();\n\n\t\tCLEANUP_PUSH(&cleanupParser, NULL);\n\n\t\tGPS_reset();\n\n', '\twhile (true) {\n\t\tTRIMBLE_PARSER_connect();\n\n\t\tCLEANUP_PUSH(&cleanupParser, NULL);\n\n')]}, srcs=['trimble/trimble_recv.c', 'core/gps.c', 'core/beast.c'], needs='the connection to the GPS receiver is lost and comes back, then the server is connected again before the receiver reports a position', breaks='the position before the loss is reported'),
'rcconf-stale': dict(property='C36', edit={'src/radarcape/rc-parser.c': [('\tconst struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();\n\tCLEANUP_PUSH_LOCK(&configMutex);\n\tsetOption(filterCfg->extSquitter ?\n\t\tRADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :\n\t\tRADARCAPE_OPTION_FRAME_FILTER_ALL);', '\tconst bool extSquitter = FILTER_getConfiguration()->extSquitter;\n\tCLEANUP_PUSH_LOCK(&configMutex);\n\tsetOption(extSquitter ?\n\t\tRADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :\n\t\tRADARCAPE_OPTION_FRAME_FILTER_ALL);')]}, flags='-DINPUT_RADARCAPE_UART', srcs=['radarcape/rc-parser.c'], ld='-Wl,--wrap=pthread_mutex_lock', needs='two changes of the filter at the same time: the thread of the first one is suspended between reading the filter and getting the lock', breaks='the receiver finally runs in the mode of the first change'),
'restart-board': dict(property='C39', edit={'src/radarcape/tb-misc.c': [('\tchar * argvBlack[] = {\n\t\tMAIN_progName,\n', '\tchar * argvBlack[] = {\n')]}, srcs=['radarcape/tb-misc.c'], needs='a restart is asked for while running on a black board', breaks='the daemon tries to execute a program named --black and ends'),
'net-total': dict(property='C09', edit={'src/core/network.h': [('\tuint64_t bytesSent;\n', '\tuint32_t bytesSent;\n')]}, srcs=['core/network.c'], ld='-Wl,--wrap=send', needs='more than 4 GiB sent since the start', breaks='the statistics start again from 0'),
'net-wakeup': dict(property='C09', edit={'src/core/network.c': [('\twhile (connState != CONN_STATE_CONNECTED)\n\t\tpthread_cond_wait(&cond, &mutex);', '\tif (connState != CONN_STATE_CONNECTED)\n\t\tpthread_cond_wait(&cond, &mutex);')]}, srcs=['core/network.c'], ld='-Wl,--wrap=pthread_cond_wait', needs='a spurious wake-up, or a connection lost again before the waiting thread runs', breaks='a thread goes on without a connection'),
'stat-width': dict(property='C32', edit={'src/util/statistics.c': [('	printf(" - %27" PRIu64 " bytes received (%.02f/s)\\n", net->bytesReceived,\n', '	const uint_fast32_t received = net->bytesReceived & 0xffffffff;\n	printf(" - %27" PRIuFAST32 " bytes received (%.02f/s)\\n", received,\n')]}, srcs=['util/statistics.c', 'util/cfgfile.c', 'util/port/mmap-posix.c'], needs='more than 4 GiB received', breaks='the report shows only the lower 32 bits of the counter'),
'sel-busy': dict(property='C09', edit={'src/util/port/socket.h': [('static inline ssize_t SOCK_recvCancelable(sock_t sock, void * buf, size_t len,\n	int flags)\n{\n	fd_set fds;\n', 'static inline ssize_t SOCK_recvCancelable(sock_t sock, void * buf, size_t len,\n	int flags)\n{\n	fd_set fds;\n	struct timeval ts = { .tv_sec = 5, .tv_usec = 0 };\n'), ('		struct timeval ts = { .tv_sec = 5, .tv_usec = 0 };\n		FD_ZERO(&fds);\n		FD_SET(sock, &fds);\n		int rc = SOCK_select(sock + 1, &fds, NULL,', '		FD_ZERO(&fds);\n		FD_SET(sock, &fds);\n		int rc = SOCK_select(sock + 1, &fds, NULL,')]}, srcs=[], ld='-Wl,--wrap=select', needs='the build without cancellation points; nothing is received for more than 5 s', breaks='select() returns the time which is left: the receiving thread does not wait any more, but keeps the processor busy'),
}
