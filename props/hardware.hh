// C39, included in daemon.cc: the hardware of a stand-alone Radarcape
extern "C" {
int __real_open(const char *, int, ...);
int __wrap_open(const char * n, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	int m = f & O_CREAT ? va_arg(ap, int) : 0;
	va_end(ap);
	if (!strcmp(n, "/dev/mem")) {
		REQUIRE((f & O_ACCMODE) == O_RDWR, "/dev/mem opened with flags %o", f);
		if (!memOpens) { errno = EACCES; return -1; }
		return memFd = __real_open("/dev/null", O_RDWR | O_CLOEXEC);
	}
	if (strncmp(n, "/dev/tty", 8)) return __real_open(n, f, m);
	Peer p = !strcmp(n, "/dev/ttyS5") ? RECEIVER : !strcmp(n, "/dev/ttyS2") ? GPSRX : OTHER;
	REQUIRE(p != OTHER, "%s opened", n);
	REQUIRE((f & O_ACCMODE) == O_RDWR, "%s opened with flags %o", n, f);
	for (auto & s : w.socks) REQUIRE(!s->line || s->peer != p || s->closed, "the line of the %s is opened twice", PEER[p]);
	sched::point("opening a line");
	if (!w.up[p]) { errno = ENOENT; return -1; }
	auto s = new Sock;
	for (auto & o : w.socks) if (o->peer == p && o->connected) ++s->conn;
	w.socks.emplace_back(s);
	s->fd = 1000 + w.socks.size();
	s->peer = p;
	s->connected = s->line = true;
	s->cloexec = f & O_CLOEXEC;
	s->openedAt = sched::steps();
	int fd = s->fd;
	note("  line of the %s opened (%u)", PEER[p], s->conn);
	return fd;
}
int __wrap_open64(const char * n, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	int m = f & O_CREAT ? va_arg(ap, int) : 0;
	va_end(ap);
	return __wrap_open(n, f, m);
}
static Sock & lineOf(int fd, const char * what)
{
	Sock & s = use(fd, what);
	REQUIRE(s.line, "%s on a socket", what);
	return s;
}
int __wrap_tcgetattr(int fd, struct termios * t)
{
	lineOf(fd, "tcgetattr");
	memset(t, 0, sizeof *t);
	return 0;
}
int __wrap_tcsetattr(int fd, int, const struct termios *) { lineOf(fd, "tcsetattr"); return 0; }
int __wrap_tcflush(int fd, int) { lineOf(fd, "tcflush"); return 0; }
int __wrap_tcdrain(int fd) { lineOf(fd, "tcdrain"); sched::point("draining"); return 0; }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void * buf, size_t len)
{
	if (fd >= 0 && fd < 1000) return __real_read(fd, buf, len);
	Sock & s = lineOf(fd, "read");
	++s.readers;
	REQUIRE(s.readers == 1, "two threads read at the same time");
	struct Out { Sock & s; ~Out() { --s.readers; } } out { s };
	if (!s.chunks.empty() && !s.chunks.back().to) s.chunks.back().to = sched::steps();
	if (s.firstRecv == UINT64_MAX) s.firstRecv = sched::steps();
	sched::point("reading");
	if (s.rst) { errno = EIO; return -1; }
	if (s.inPos >= s.in.size()) { if (s.eof) return 0; errno = EAGAIN; return -1; }
	size_t n = std::min(len, s.in.size() - s.inPos);
	if (n > 1 && w.g->chance(1, 4)) n = w.g->range(1, n);
	memcpy(buf, &s.in[s.inPos], n);
	s.inPos += n;
	s.chunks.push_back({ s.inPos, sched::steps(), 0 });
	return n;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void * buf, size_t len)
{
	if (fd >= 0 && fd < 1000) return __real_write(fd, buf, len);
	if (fd < 0) { errno = EBADF; return -1; }
	Sock & s = lineOf(fd, "write");
	sched::point("writing");
	REQUIRE(!s.closed, "written to a line closed meanwhile");
	if (s.rst) { errno = EIO; return -1; }
	if (s.peer == RECEIVER) for (size_t i = 0; i < len; ++i) {
		s.cmd.push_back(((const uint8_t *)buf)[i]);
		if (s.cmd.size() < 3) continue;
		REQUIRE(s.cmd[0] == 0x1a && s.cmd[1] == '1', "the receiver got %s, which is no command", hex(s.cmd).c_str());
		s.opt[tolower(s.cmd[2])] = s.cmd[2];
		s.cmd.clear();
	}
	return len;
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd * p, nfds_t n, int timeout)
{
	if (n == 1 && p->fd >= 0 && p->fd < 1000) return __real_poll(p, n, timeout);
	REQUIRE(n == 1 && timeout == -1, "unexpected poll");
	Sock & s = lineOf(p->fd, "poll");
	sched::block("waiting for input", [&s] { return s.dead() || s.eof || s.inPos < s.in.size(); }, true);
	p->revents = s.rst || s.eof ? POLLHUP | POLLIN : POLLIN;
	return 1;
}
int __wrap_usleep(useconds_t us)
{
	if (sched::active()) sched::sleepFor("sleeping", us * 1000ll, true);
	return 0;
}
int __wrap_nanosleep(const struct timespec * t, struct timespec *)
{
	if (sched::active()) sched::sleepFor("sleeping", t->tv_sec * S + t->tv_nsec, true);
	return 0;
}
}
// what may be written to the pins while the daemon runs
static bool pinsAllowed(unsigned c, unsigned r, uint32_t v)
{
	if (c == 1 && (r == OE ? v == (oe[1] & ~(1u << 28)) : v == 1u << 28)) return true; // watchdog
	return fpgaPins(c, r, v);
}
static void setupHardware(Gen & g)
{
	static bool once = false;
	if (!once) {
		once = true;
		mkdir("fw", 0755);
		Bytes other(w.c.bitstream.size() + 1, 0x33);
		for (std::string n : { std::string("fw/openskyd.rbf"), std::string("fw/other.rbf"), scratch() + "/abs.rbf" }) {
			const Bytes & b = n == w.c.rbf ? w.c.bitstream : other;
			if (FILE * f = fopen(n.c_str(), "w")) { fwrite(b.data(), 1, b.size(), f); fclose(f); }
		}
		unlink("fw/none.rbf");
		boardReset(g);
		dev.b = boards[!w.c.black];
		dev.file = &w.c.bitstream;
		for (int k = 0; k < 3; ++k) {
			Attempt a {};
			if (k < 2 || w.c.broken == 3) a.kind = w.c.broken == 3 ? g.range(1, 3) : g.weighted({ 8, 1, 1, 1 });
			a.errorBit = g.raw(w.c.bitstream.size() * 8 - 1);
			a.syncDelay = g.pick<int64_t>({ 0, 1, 50, 300 });
			a.doneDelay = g.pick<int64_t>({ 0, 1, 50, 300 });
			dev.plan.push_back(a);
		}
		dev.dclk = pinLevel(dev.b.dclk);
		if (!released(dev.b.nconf)) { dev.inReset = true; dev.attempt = 1; }
		dev.present = true;
		if (w.c.broken == 1) memOpens = false;
		if (w.c.broken == 2) failAt = g.raw(3);
		mayWrite = pinsAllowed;
		wdHigh = pinLevel(60);
		wdOn = true;
		wdPulses.clear();
	}
	w.startedAt = sched::now();
}
// the watchdog is served while the daemon runs
static void checkWatchdog()
{
	int64_t last = w.startedAt + S; // programming the FPGA takes some time
	REQUIRE(!wdPulses.empty(), "the watchdog is not served");
	for (int64_t p : wdPulses) {
		REQUIRE(p - last <= 31 * S, "no watchdog pulse for %.1f s", (p - last) / 1e9);
		last = p;
	}
	REQUIRE(w.sigintAt - last <= 31 * S, "no watchdog pulse for the last %.1f s", (w.sigintAt - last) / 1e9);
}
static void checkFpga()
{
	if (!w.c.program) { REQUIRE(dev.bits.empty(), "the FPGA is programmed although this is switched off"); return; }
	REQUIRE(dev.success && dev.bits.size() == w.c.bitstream.size() * 8, "the FPGA is not programmed (%zu attempts)", dev.attempt);
}
