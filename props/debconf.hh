// C38: the Debian packages of the feeder: debian/*.config and debian/*.postinst talk to a debconf front end
// (this file speaks its protocol) and the daemon runs with the file they write.
// Both scripts run as 'nobody' with paths below a scratch directory and stand-ins for the tools changing accounts.
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/wait.h>

namespace {
#if defined(DUMP1090_DONATED)
const char PACKAGE[] = "opensky-feeder-donated";
#elif defined(DUMP1090_KIT)
const char PACKAGE[] = "opensky-feeder-kit";
#else
const char PACKAGE[] = "opensky-feeder";
#endif
const char CONFMODULE[] = "/usr/share/debconf/confmodule";
struct Question { std::string type, def, value; bool has = false, seen = false; };
struct DebDb {
	std::map<std::string, Question> q;
	bool interactive = true, reshow = false, critical = false; // front end: asks; shows seen questions; only critical ones
	std::vector<std::string> pending, shown; // of the current block; of the last GO
	unsigned rounds = 0, asked = 0;
};
enum Valid { GOOD, BAD, EITHER };
struct Answer { std::string text; Valid valid; };

bool decimal(const std::string & s)
{
	size_t i = 0, digits = 0;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
	while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; }
	if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++digits; } }
	return digits && i == s.size();
}
// what the templates promise about an answer
Valid validity(const std::string & key, const std::string & s)
{
	auto number = [&] (unsigned long long lo, unsigned long long hi) {
		if (s.empty()) return GOOD; // left blank
		if (s.find_first_not_of("0123456789") != std::string::npos) {
			size_t z = s[0] == '+' || s[0] == '-' ? s.find_first_not_of("0", 1) : 0;
			if (s[0] == '+' && s.size() > 1 && s.find_first_not_of("0123456789", 1) == std::string::npos) return EITHER;
			if (s[0] == '-' && s.size() > 1 && z == std::string::npos && !lo) return EITHER; // -0
			return BAD;
		}
		size_t z = s.find_first_not_of('0');
		std::string n = z == std::string::npos ? "0" : s.substr(z);
		if (n.size() > 18) return BAD;
		unsigned long long v = std::stoull(n);
		if (v < lo || v > hi) return BAD;
		return n == s ? GOOD : EITHER; // leading zeros
	};
	if (key == "latitude") return decimal(s) && fabs(strtod(s.c_str(), nullptr)) <= 90 ? GOOD : BAD;
	if (key == "longitude") return decimal(s) && fabs(strtod(s.c_str(), nullptr)) <= 180 ? GOOD : BAD;
	if (key == "altitude") return decimal(s) ? GOOD : BAD;
	if (key == "username") return s.size() <= 40 ? GOOD : BAD;
	if (key == "serial") return number(0, 0xffffffff);
	if (key == "port") return number(1, 65535);
	return GOOD;
}
const char * const KEYS[] = { "latitude", "longitude", "altitude", "dump1090branch", "username", "serial", "port", "host" };

std::string decimals(Gen & g, double max)
{
	char b[64];
	double v = g.range(-1000000, 1000000) / 1e6 * max;
	snprintf(b, sizeof b, "%.*f", (int)g.range(0, 9), v);
	std::string s = b;
	if (g.chance(1, 8) && s[0] != '-') s = "+" + s;
	return s;
}
std::string answer(Gen & g, const std::string & key, bool good)
{
	std::string s;
	if (key == "latitude" || key == "longitude" || key == "altitude") {
		double max = key == "latitude" ? 90 : key == "longitude" ? 180 : 9000;
		if (good) {
			if (g.chance(2, 3)) return decimals(g, max);
			std::string m = std::to_string((int)max);
			return g.pick<std::string>({ m, "-" + m, "+" + m + ".0", m + ".", "0", "-0", ".5", "-.25", "007.50", "0.1", "00", m + ".0000000000" });
		}
		if (max == 9000) return g.pick<const char *>({ "", "high", "12m", "1,5", "1.2.3", "--4", ".", "-", "0x10", "1e3", "12 ", "nan" });
		if (g.chance(1, 2)) return g.pick<const char *>({ "", "N48", "48N", "1,5", "1.2.3", "--4", ".", "+", "0x10", "1e1", "12 ", "inf", "nan", "48 7.5", "$LAT" });
		return (g.chance(1, 2) ? "-" : "") + (g.chance(1, 2) ? std::to_string((int)max) + ".0001" : std::to_string((int)max + g.range(1, 1000)));
	}
	if (key == "dump1090branch") return g.pick<const char *>({ "default", "hptoa" });
	if (key == "username") {
		size_t n = good ? g.chance(1, 4) ? g.pick<size_t>({ 0, 40, 39, 1 }) : g.range(0, 40) : g.pick<size_t>({ 41, 42, 60, 200 });
		for (size_t i = 0; i < n; ++i) {
			if (g.chance(2, 3) || !i || i + 1 == n) s += g.pick<char>({ 'a', 'Z', '0', '_', '-', '.', '@', 'x' });
			else s += g.pick<char>({ ' ', '$', '"', '\'', '\\', '=', '`', '%', '*', '/', '!', '&', '|', '(', '<', '~', ',', (char)0xc3, (char)0xa4 });
		}
		return s;
	}
	if (key == "serial") {
		if (good) return g.chance(1, 2) ? "" : std::to_string(g.chance(1, 3) ? g.pick<uint32_t>({ 0, 1, 8, 0x1a1a1a1a, 0x7fffffff, 0x80000000, 0xffffffff }) : g.u32());
		return g.pick<const char *>({ "abc", "-1", "-5", "4294967296", "99999999999999999999", "12a", "1.5", "0x12", " 5", "-2147483647", "010", "+7", "0089", "00" });
	}
	if (key == "port") {
		if (good) return g.chance(1, 4) ? g.pick<const char *>({ "30005", "1", "65535", "" }) : std::to_string(g.range(1, 65535));
		return g.pick<const char *>({ "0", "65536", "-1", "abc", "80a", "1.5", "0x50", "99999999999", "http", "-30005", "010", "030005", "+80" });
	}
	size_t n = g.small(0, 30);
	for (size_t i = 0; i < n; ++i) s += g.pick<char>({ 'a', 'b', '0', '-', '.', 'X', ':' });
	return s;
}

std::string readFile(const std::string & n)
{
	std::string r;
	FILE * f = fopen(n.c_str(), "r");
	if (!f) return r;
	int c;
	while ((c = fgetc(f)) != EOF) r.push_back(c);
	fclose(f);
	return r;
}
void writeFile(const std::string & n, const std::string & t, int mode = 0644)
{
	FILE * f = fopen(n.c_str(), "w");
	if (!f) fail("harness: cannot write %s", n.c_str());
	fwrite(t.data(), 1, t.size(), f);
	fclose(f);
	chmod(n.c_str(), mode);
}
std::string repoFile(const std::string & n)
{
	const char * r = getenv("VERIF_REPO");
	return readFile(std::string(r ? r : "/repo") + "/" + n);
}
void loadTemplates(DebDb & db)
{
	std::string t = repoFile(std::string("debian/") + PACKAGE + ".templates"), cur;
	REQUIRE(!t.empty(), "the package has no templates");
	for (size_t p = 0; p < t.size();) {
		size_t e = t.find('\n', p);
		if (e == std::string::npos) e = t.size();
		std::string l = t.substr(p, e - p);
		p = e + 1;
		size_t c = l.find(": ");
		if (l.empty() || l[0] == ' ' || c == std::string::npos) continue;
		std::string k = l.substr(0, c), v = l.substr(c + 2);
		if (k == "Template") { cur = v; db.q[cur]; }
		else if (k == "Type") db.q[cur].type = v;
		else if (k == "Default") { db.q[cur].def = db.q[cur].value = v; db.q[cur].has = true; }
	}
}

// one command of the protocol; onGo: answers the questions shown
std::string command(DebDb & db, const std::string & line, const std::function<void ()> & onGo)
{
	std::vector<std::string> a;
	std::string rest = line;
	while (a.size() < 4 && !rest.empty()) {
		size_t s = rest.find(' ');
		// the last argument of SET can have blanks
		if (a.size() == 2 && a[0] == "SET") { a.push_back(rest); break; }
		a.push_back(rest.substr(0, s));
		rest = s == std::string::npos ? "" : rest.substr(s + 1);
	}
	if (a.empty()) return "20 Unsupported command";
	for (auto & c : a[0]) c = toupper(c);
	auto known = [&] (size_t n) { return a.size() > n && db.q.count(a[n]); };
	if (a[0] == "VERSION") return "0 2.0";
	if (a[0] == "CAPB") return "0 multiselect";
	if (a[0] == "TITLE" || a[0] == "SETTITLE" || a[0] == "BEGINBLOCK" || a[0] == "ENDBLOCK" || a[0] == "SUBST" || a[0] == "INFO" || a[0] == "CLEAR") return "0";
	if (a[0] == "GET") return known(1) ? "0 " + db.q[a[1]].value : "10 " + (a.size() > 1 ? a[1] : "") + " doesn't exist";
	if (a[0] == "SET") { if (!known(1)) return "10 doesn't exist"; db.q[a[1]].value = a.size() > 2 ? a[2] : ""; return "0 value set"; }
	if (a[0] == "RESET") { if (!known(1)) return "10 doesn't exist"; db.q[a[1]].value = db.q[a[1]].def; db.q[a[1]].seen = false; return "0"; }
	if (a[0] == "FGET") return known(1) ? db.q[a[1]].seen ? "0 true" : "0 false" : "10 doesn't exist";
	if (a[0] == "FSET") { if (!known(1) || a.size() < 4) return "10 doesn't exist"; if (a[2] == "seen") db.q[a[1]].seen = a[3] == "true"; return "0 " + a[3]; }
	if (a[0] == "METAGET") return "0 ";
	if (a[0] == "INPUT") {
		if (a.size() < 3 || !known(2)) return "10 \"" + (a.size() > 2 ? a[2] : "") + "\" doesn't exist";
		static const std::set<std::string> prios { "low", "medium", "high", "critical" };
		if (!prios.count(a[1])) return "10 \"" + a[1] + "\" is not a valid priority";
		Question & q = db.q[a[2]];
		bool prio = a[1] == "critical" || (a[1] == "high" && !db.critical);
		// errors are shown by all front ends
		if (q.type != "error" && (!db.interactive || !prio || (q.seen && !db.reshow))) return "30 question skipped";
		db.pending.push_back(a[2]);
		return "0 question will be asked";
	}
	if (a[0] == "GO") {
		++db.rounds;
		REQUIRE(db.rounds < 60, "the configuration script goes on asking after %u rounds, the last one with %zu questions", db.rounds, db.pending.size());
		db.shown = db.pending;
		db.pending.clear();
		for (auto & n : db.shown) { db.q[n].seen = true; if (db.q[n].type != "error" && db.q[n].type != "note") db.q[n].has = true; }
		db.asked += db.shown.size();
		onGo();
		return "0 ok";
	}
	return "20 Unsupported command \"" + a[0] + "\"";
}

// runs a script of the package; returns its exit status
int runScript(DebDb & db, const std::string & interpreter, const std::string & file, const std::vector<std::string> & args, const std::function<void ()> & onGo)
{
	std::string home = scratch();
	int in[2], out[2];
	if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) fail("harness: pipe");
	db.rounds = 0; db.asked = 0; db.pending.clear(); db.shown.clear();
	pid_t pid = __real_fork();
	if (pid < 0) fail("harness: fork");
	if (!pid) {
		dup2(in[0], 0);
		dup2(out[1], 1);
		int err = open((home + "/script.err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(err < 0 ? 1 : err, 2);
		if (chdir(home.c_str())) _exit(98);
		if (!geteuid() && (setgroups(0, nullptr) || setgid(65534) || setuid(65534))) _exit(99);
		signal(SIGPIPE, SIG_DFL);
		std::vector<std::string> a { interpreter, file };
		a.insert(a.end(), args.begin(), args.end());
		std::vector<char *> av;
		for (auto & x : a) av.push_back(&x[0]);
		av.push_back(nullptr);
		std::string path = "PATH=" + home + "/bin:/usr/bin:/bin", pkg = std::string("DPKG_MAINTSCRIPT_PACKAGE=") + PACKAGE;
		std::vector<const char *> env { path.c_str(), pkg.c_str(), "DEBIAN_HAS_FRONTEND=1", "LC_ALL=C", "HOME=/nonexistent", "USER=root" };
		if (db.reshow) env.push_back("DEBCONF_RECONFIGURE=1");
		env.push_back(nullptr);
		__real_execve(interpreter.c_str(), av.data(), (char **)env.data());
		_exit(97);
	}
	__real_close(in[0]);
	__real_close(out[1]);
	signal(SIGPIPE, SIG_IGN);
	struct Kill { pid_t p; int a, b; ~Kill() { __real_close(a); __real_close(b); if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } } } guard { pid, in[1], out[0] };
	std::string buf;
	while (true) {
		size_t e;
		while ((e = buf.find('\n')) != std::string::npos) {
			std::string l = buf.substr(0, e);
			buf.erase(0, e + 1);
			if (l.substr(0, 4) == "STOP") continue;
			std::string r = command(db, l, onGo) + "\n";
			if (write(in[1], r.data(), r.size()) < 0) break;
		}
		struct pollfd p { out[0], POLLIN, 0 };
		int n = poll(&p, 1, 60000);
		if (n < 0 && errno == EINTR) continue;
		REQUIRE(n > 0, "the script '%s' hangs", file.c_str() + home.size() + 1);
		char b[4096];
		ssize_t rd = read(out[0], b, sizeof b);
		if (rd <= 0) break;
		buf.append(b, rd);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	guard.p = 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) fail("harness: cannot run the script (%d)", WEXITSTATUS(st));
	return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
void replaceAll(std::string & s, const std::string & a, const std::string & b)
{
	for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
}
std::string lastSerial(const std::string & dir)
{
	// the files in the order of their numbers
	std::map<unsigned long, std::string> files;
	std::string r;
	if (DIR * d = opendir(dir.c_str())) {
		while (struct dirent * e = readdir(d)) if (isdigit((unsigned char)e->d_name[0])) files[strtoul(e->d_name, nullptr, 10)] = e->d_name;
		closedir(d);
	}
	for (auto & f : files) {
		auto c = parseConf(dir + "/" + f.second);
		if (c.count("device.serial")) r = c["device.serial"];
	}
	return r;
}
}

static void packageProp(Gen & g)
{
	startWorld(g);
	Cfg & c = w.c;
	std::string home = scratch();
	if (chdir(home.c_str())) fail("harness: chdir");
	chmod(home.c_str(), 0755);
	for (const char * d : { "var", "etc", "etc/conf.d", "bin" }) mkdir(d, 0755);
	if (!geteuid() && chown("var", 65534, 65534)) fail("harness: chown");
	bool groupThere = g.chance(1, 2), userThere = groupThere && g.chance(1, 2), override = g.chance(1, 4);
	writeFile("bin/getent", std::string("#!/bin/sh\necho root:x:0:0:root:/root:/bin/sh\n") + (groupThere ? "[ \"$1\" = group ] && echo openskyd:x:990:\n" : "") + (userThere ? "[ \"$1\" = passwd ] && echo openskyd:x:990:990::/var:/bin/false\n" : "") + "exit 0\n", 0755);
	for (const char * n : { "addgroup", "adduser", "usermod", "chown", "chgrp", "deluser", "delgroup", "systemctl" }) writeFile(std::string("bin/") + n, "#!/bin/sh\nexit 0\n", 0755);
	writeFile("bin/dpkg-statoverride", override ? "#!/bin/sh\nexit 0\n" : "#!/bin/sh\nexit 1\n", 0755);
	std::string config = repoFile(std::string("debian/") + PACKAGE + ".config"), post = repoFile(std::string("debian/") + PACKAGE + ".postinst");
	REQUIRE(!config.empty() && !post.empty(), "the package has no configuration scripts");
	for (auto s : { &config, &post }) replaceAll(*s, "/var/lib/openskyd", home + "/var");
	if (post.find(home + "/var") == std::string::npos) discard("another directory");
	writeFile("config", config, 0755);
	writeFile("postinst", post, 0755);
	std::string shell = config.substr(0, config.find('\n')).find("perl") != std::string::npos ? "/usr/bin/perl" : "/bin/sh";

	DebDb db;
	loadTemplates(db);
	std::vector<std::string> keys;
	for (auto k : KEYS) if (db.q.count(std::string("openskyd/") + k)) keys.push_back(k);
#if defined(DUMP1090_DONATED) || defined(DUMP1090_KIT)
	keys.erase(std::remove(keys.begin(), keys.end(), "dump1090branch"), keys.end());
#endif
	auto val = [&] (const std::string & k) -> std::string & { return db.q["openskyd/" + k].value; };

	unsigned steps = 1 + g.small(0, 2);
	bool installed = false, valid = false;
	std::string stored; // serial number the daemon has stored
	for (unsigned s = 0; s < steps; ++s) {
		enum { INSTALL, UPGRADE, RECONFIGURE } what = !installed ? INSTALL : g.chance(1, 2) ? UPGRADE : RECONFIGURE;
		db.interactive = g.chance(3, 4);
		db.critical = g.chance(1, 6);
		db.reshow = what == RECONFIGURE;
		bool last = s + 1 == steps;
		if (what == INSTALL && (!db.interactive || g.chance(1, 5))) {
			// preseeded answers
			for (auto & k : keys) if (g.chance(3, 4)) {
				val(k) = answer(g, k, g.chance(9, 10));
				db.q["openskyd/" + k].seen = g.chance(1, 2);
				note("preseeded %s = '%s'", k.c_str(), val(k).c_str());
			}
		}
		note("%s, %s%s", what == INSTALL ? "installation" : what == UPGRADE ? "upgrade" : "reconfiguration", db.interactive ? "interactive" : "not interactive", db.critical ? ", critical questions only" : "");
		if (what == UPGRADE && !stored.empty() && g.chance(1, 3) && access("var/conf.d/05-serial.conf", F_OK) == 0) {
			// as stored by an old version
			note("serial number in the file of an old version");
			rename("var/conf.d/05-serial.conf", "var/conf.d/10-serial.conf");
		}
		std::map<std::string, std::string> before, given;
		for (auto & k : keys) before[k] = val(k);
		std::string userBefore = before["username"];
		bool noticed = false, sawErrors = false;
		std::map<std::string, std::string> atLastRound;
		unsigned round = 0;
		auto onGo = [&] {
			std::set<std::string> sh(db.shown.begin(), db.shown.end());
			if (sh.count("openskyd/usernamechanged")) { noticed = true; REQUIRE(sh.size() == 1, "other questions beside the notice of the changed user name"); return; }
			++round;
			for (auto & k : keys) {
				bool shown = sh.count("openskyd/" + k), error = sh.count("openskyd/" + k + "format");
				if (round > 1 && db.interactive) {
					// after the first round: what was not acceptable
					Valid v = validity(k, atLastRound[k]);
					bool known = atLastRound.count(k);
					if (known && v == GOOD) REQUIRE(!shown && !error, "'%s' is asked for again, though '%s' is acceptable", k.c_str(), atLastRound[k].c_str());
					if (known && v == BAD && !db.critical) REQUIRE(shown, "'%s' is not asked for again, though '%s' is not acceptable", k.c_str(), atLastRound[k].c_str());
					if (shown && db.q.count("openskyd/" + k + "format")) REQUIRE(error, "'%s' is asked for again without telling what is wrong with '%s'", k.c_str(), atLastRound[k].c_str());
					if (error) sawErrors = true;
				}
				if (shown) {
					if (what == INSTALL || !db.reshow || round > 1 || g.chance(1, 2)) {
						val(k) = answer(g, k, round > 3 || !g.chance(1, 5));
						note("  %s = '%s'", k.c_str(), val(k).c_str());
					}
					given[k] = val(k);
				}
			}
			for (auto & k : keys) atLastRound[k] = val(k);
		};
		std::vector<std::string> args { what == RECONFIGURE ? "reconfigure" : "configure", what == INSTALL ? "" : "2.1.7-3" };
		int st = runScript(db, shell, home + "/config", args, onGo);
		REQUIRE(!st, "exit status %d of the configuration script: %s", st, readFile("script.err").c_str());
		valid = true;
		bool ambiguous = false;
		for (auto & k : keys) {
			Valid v = validity(k, val(k));
			bool askable = db.interactive && (!db.critical || k == "latitude" || k == "longitude" || k == "altitude");
			if (v == BAD) REQUIRE(!askable, "'%s' = '%s' is accepted", k.c_str(), val(k).c_str());
			if (v == BAD) valid = false;
			if (v == EITHER) { ambiguous = true; if (!askable) valid = false; }
			if (given.count(k)) REQUIRE(val(k) == given[k], "'%s' was answered with '%s', but is '%s'", k.c_str(), given[k].c_str(), val(k).c_str());
			else if (validity(k, before[k]) == GOOD) REQUIRE(val(k) == before[k], "'%s' has changed from '%s' to '%s' without a question", k.c_str(), before[k].c_str(), val(k).c_str());
		}
		bool changed = !userBefore.empty() && val("username") != userBefore;
		if (!noticed) REQUIRE(!changed, "no notice about the user name changed from '%s' to '%s'", userBefore.c_str(), val("username").c_str());
		if (noticed) REQUIRE(changed, "notice about a changed user name, which is still '%s'", userBefore.c_str());
		if (what == UPGRADE && db.interactive && valid && !ambiguous) {
			bool same = true;
			for (auto & k : keys) if (val(k) != before[k]) same = false;
			(void)same;
		}
		if (sawErrors) label("answers rejected");
		if (noticed) label("user name changed");
		if (ambiguous) label("number with sign or leading zeros");
		if (!db.interactive) label("not interactive");
		args[0] = "configure";
		args[1] = what == INSTALL ? "" : "2.1.7-3";
		db.interactive = false;
		st = runScript(db, "/bin/sh", home + "/postinst", args, [] {});
		REQUIRE(!st, "exit status %d of the installation script: %s", st, readFile("script.err").c_str());
		REQUIRE(!db.asked, "the installation script asks questions");
		installed = true;
		if (!valid) continue;
		std::string want = !val("serial").empty() ? val("serial") : stored, got = lastSerial("var/conf.d");
		REQUIRE(got == want, "serial number '%s' is configured, expected '%s'", got.c_str(), want.c_str());
		if (!last && stored.empty() && g.chance(1, 2)) {
			stored = std::to_string(g.u32());
			writeFile("var/conf.d/05-serial.conf", "[Device]\nserial = " + stored + "\n");
			note("the daemon has got serial number %s", stored.c_str());
		}
	}
	nontrivial();
	if (!valid) { label("incomplete"); done(); }
	// the daemon runs with the answers
	c.lat = strtod(val("latitude").c_str(), nullptr);
	c.lon = strtod(val("longitude").c_str(), nullptr);
	c.alt = strtod(val("altitude").c_str(), nullptr);
	c.user = val("username");
	c.inputHost = val("host").empty() ? "localhost" : val("host");
	c.inputPort = val("port").empty() ? 30005 : strtoul(val("port").c_str(), nullptr, 10);
	std::string serial = !val("serial").empty() ? val("serial") : stored;
	c.serial = !serial.empty();
	w.serialNo = c.serialNo = c.serial ? strtoul(serial.c_str(), nullptr, 10) : g.u32();
#if defined(DUMP1090_DONATED)
	c.devType = 6;
#elif defined(DUMP1090_KIT)
	c.devType = 7;
#else
	c.devType = val("dump1090branch") == "hptoa" ? 8 : 5;
#endif
	sched::reset(g, 4);
	logstub::record = true;
	logstub::take();
	startDaemon();
	int64_t until = sched::now() + 8 * S;
	sched::spawn("server", [] {
		while (true) {
			if (Sock * s = w.server()) { serverReads(*s); if (w.wantResponse) respond(*s); }
			sched::sleepFor("server", 100 * MS, true);
		}
	});
	sched::run([until] { stepLimit(400000); return w.emerg || w.ended || sched::now() > until; });
	REQUIRE(!w.emerg, "the daemon refuses the configuration written by the package: %s", w.emergMsg.c_str());
	REQUIRE(!w.ended, "the daemon ended with status %d", w.result);
	Sock * s = w.server(), * r = w.receiver();
	REQUIRE(s, "no connection to the server");
	REQUIRE(r, "no connection to the receiver");
	ConnInfo ci = checkConn(*s, messages(*s));
	REQUIRE(ci.login, "no complete login after eight seconds");
	REQUIRE(ci.positions >= 1, "position not reported");
	stopDaemon();
	// a serial number got from the server stays
	if (!c.serial) REQUIRE(lastSerial("var/conf.d") == std::to_string(w.serialNo), "the serial number was not stored");
	db.interactive = false;
	db.reshow = false;
	int st = runScript(db, shell, home + "/config", { "configure", "2.1.7-4" }, [] {});
	REQUIRE(!st, "exit status %d of the configuration script", st);
	st = runScript(db, "/bin/sh", home + "/postinst", { "configure", "2.1.7-4" }, [] {});
	REQUIRE(!st, "exit status %d of the installation script", st);
	REQUIRE(strtoul(lastSerial("var/conf.d").c_str(), nullptr, 10) == w.serialNo, "serial number '%s' after an upgrade, expected %u", lastSerial("var/conf.d").c_str(), w.serialNo);
	label("running");
	done();
}
