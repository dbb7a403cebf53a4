// C30, C39, included in daemon.cc: remote commands and the programs executed by the daemon.
// execve is a stand-in that records its arguments: nothing is ever executed.
#ifdef STANDALONE
#define POLL __real_poll
#else
#define POLL ::poll
#endif
namespace {
struct Recorded { pid_t pid; int nargs; char args[1024]; };
struct Shared { volatile int n; Recorded e[64]; };
Shared * sh;
int childPipe[2] = { -1, -1 };
}
extern "C" {
pid_t __real_fork();
int __real_execve(const char *, char * const *, char * const *);
pid_t __wrap_fork()
{
	pid_t p = __real_fork();
	if (!p) sched::detach();
	return p;
}
int __wrap_execve(const char * path, char * const argv[], char * const envp[])
{
	if (getpid() == w.pid) { // the daemon replaces itself
		sched::point("executing");
		w.newProgram.clear();
		w.newProgram.push_back(path);
		for (int i = 0; argv[i]; ++i) w.newProgram.push_back(argv[i]);
		for (auto & s : w.socks) REQUIRE(s->closed || s->cloexec, "the program executed inherits a %s connection", s->connected ? PEER[s->peer] : "");
		if (w.execFails) { errno = ENOENT; return -1; }
		w.replaced = true;
		sched::block("replaced by another program", [] { return false; }, false);
	}
	int n = __sync_fetch_and_add(&sh->n, 1);
	if (n >= 64) _exit(98);
	Recorded & e = sh->e[n];
	e.pid = getpid();
	size_t k = snprintf(e.args, sizeof e.args, "%s", path);
	for (int i = argv[0] ? 1 : 0; argv[i] && k < sizeof e.args; ++i) k += snprintf(e.args + k, sizeof e.args - k, " %s", argv[i]);
	_exit(strstr(path, "pacman") && !w.upgradeWorks ? 1 : 0);
}
}
static void setupCommands()
{
	if (!sh) {
		sh = (Shared *)::mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (pipe(childPipe)) fail("harness: pipe");
	}
	w.pid = getpid();
}
// a command of the server
static void sendCommand(Gen & g, Sock & s)
{
	static const uint16_t len[] = { 10, 4, 4, 4 };
	uint8_t t = g.weighted({ 4, 1, 2, 2 });
	Bytes p { 0, t, 0, (uint8_t)len[t] };
	Sock::Cmd c { 0, t, {} };
	if (t == 0) c.payload = genBytes(g, 6);
	append(p, c.payload);
	if (g.chance(1, 8)) { // not what it is supposed to be: the length of the payload
		p.push_back(0);
		p[3] += 1;
		c.type = 0xff;
	}
#ifndef STANDALONE
	// only the donated feeder has a reverse shell, and none of them the others
#ifdef DUMP1090_DONATED
	if (t != 0) c.type = 0xff;
#else
	c.type = 0xff;
#endif
#endif
	append(s.in, p);
	c.end = s.in.size();
	s.cmds.push_back(c);
	note("  server: command %u%s", t, c.type == 0xff ? " (to be ignored)" : "");
}
// which programs have to be executed
static void checkCommands(bool strict)
{
	std::vector<std::pair<std::string, bool>> want; // must
	bool restartMay = false, restartMust = false;
	unsigned n = 0;
	for (auto & s : w.socks) if (s->peer == SERVER) for (auto & c : s->cmds) {
		const Chunk * ch = nullptr;
		for (auto & x : s->chunks) if (x.upTo >= c.end) { ch = &x; break; }
		if (!ch || restartMust) continue; // not received; or the daemon is no more
		bool must = strict && ch->to;
		if (c.type == 1) {
			restartMay = true;
			if (must && !w.execFails) restartMust = true;
			if (w.replaced) restartMust = true;
		}
		must |= w.replaced; // commands are executed one after another
		auto add = [&] (const std::string & l) { want.push_back({ l, must }); };
		switch (c.type) {
		case 0: {
			char b[128];
			auto & p = c.payload;
			snprintf(b, sizeof b, "/usr/bin/rcc -t :22 -r %u.%u.%u.%u:%u -n", p[0], p[1], p[2], p[3], p[4] << 8 | p[5]);
			add(b);
			break;
		}
#ifdef STANDALONE
		case 2: add(WITH_SYSTEMD "/systemctl reboot"); break;
		case 3:
			add("/usr/bin/pacman --noconfirm --needed -Sy openskyd rcc");
			if (w.upgradeWorks) { add(WITH_SYSTEMD "/systemctl daemon-reload"); add(WITH_SYSTEMD "/systemctl restart openskyd"); }
			break;
#endif
		}
		++n;
	}
	REQUIRE(!w.replaced || restartMay, "the daemon restarts without being asked to");
	REQUIRE(!restartMust || w.replaced, "the daemon was not restarted");
	if (restartMay && w.execFails && strict) REQUIRE(!w.newProgram.empty(), "the daemon did not try to restart");
	if (!w.newProgram.empty()) {
		REQUIRE(restartMay, "the daemon tries to restart without being asked to");
		std::vector<std::string> e { "openskyd", "openskyd" };
#ifdef STANDALONE
		if (w.c.black) e.push_back("--black");
#endif
		std::string a, b;
		for (auto & x : e) a += " " + x;
		for (auto & x : w.newProgram) b += " " + x;
		REQUIRE(a == b, "restarted as%s, expected%s", b.c_str(), a.c_str());
		label(w.replaced ? "restarted" : "restart failed");
	}
	// wait for the programs
	__real_close(childPipe[1]);
	struct pollfd f = { childPipe[0], POLLIN, 0 };
	int r;
	while ((r = POLL(&f, 1, 25000)) == -1 && errno == EINTR) { }
	REQUIRE(r == 1, "a process started does not end");
	std::vector<std::string> got;
	for (int i = 0; i < sh->n && i < 64; ++i) got.push_back(sh->e[i].args);
	for (auto & x : got) {
		auto it = std::find_if(want.begin(), want.end(), [&] (auto & y) { return y.first == x && y.second; });
		if (it == want.end()) it = std::find_if(want.begin(), want.end(), [&] (auto & y) { return y.first == x; });
		REQUIRE(it != want.end(), "'%s' executed, which was not ordered", x.c_str());
		want.erase(it);
	}
	for (auto & x : want) REQUIRE(!x.second, "'%s' was not executed", x.first.c_str());
	if (n) label("commands");
}
