// C25: serial number from configuration or MAC address (src/util/serial_eth.c)
#include "pbt.hh"
#include "stub_log.hh"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <net/if.h>
#include <net/if_arp.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
extern "C" {
#include "core/serial.h"
#include "util/serial_eth.h"
#include "util/cfgfile.h"
#include "util/component.h"
extern const struct Component SERIAL_comp;
}
using namespace pbt;

namespace {
struct Source { int state; uint8_t mac[6]; int family; std::string text; int err; };
Source sock, sysfs; // state: sock 0 ok, 1 no socket, 2 ioctl fails, 3 no ethernet; sysfs 0 ok, 1 no file, 2 unusable content
int sockFd = -1;
unsigned sockUses, sysUses;
std::string sysPath;
}
static unsigned openFds()
{
	DIR * d = opendir("/proc/self/fd");
	unsigned n = 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

extern "C" {
int __real_socket(int, int, int);
int __wrap_socket(int, int, int)
{
	++sockUses;
	if (sock.state == 1) { errno = sock.err; return -1; }
	return sockFd = open("/dev/null", O_RDWR | O_CLOEXEC);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	struct ifreq * r = va_arg(ap, struct ifreq *);
	va_end(ap);
	REQUIRE(fd == sockFd && fcntl(fd, F_GETFD) >= 0, "ioctl on fd %d, which is not the socket", fd);
	REQUIRE(req == SIOCGIFHWADDR, "unexpected ioctl %lx", req);
	REQUIRE(!strncmp(r->ifr_name, "eth0", IFNAMSIZ), "address of device '%.16s' requested", r->ifr_name);
	if (sock.state == 2) { errno = sock.err; return -1; }
	r->ifr_hwaddr.sa_family = sock.state == 3 ? sock.family : ARPHRD_ETHER;
	memcpy(r->ifr_hwaddr.sa_data, sock.mac, 6);
	memset(r->ifr_hwaddr.sa_data + 6, 0xee, 8);
	return 0;
}
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * n, const char * m)
{
	if (!n || strncmp(n, "/sys/", 5)) return __real_fopen(n, m);
	REQUIRE(!strcmp(n, "/sys/class/net/eth0/address"), "file %s opened", n);
	++sysUses;
	if (sysfs.state == 1) { errno = sysfs.err; return nullptr; }
	return __real_fopen(sysPath.c_str(), m);
}
FILE * __wrap_fopen64(const char * n, const char * m) { return __wrap_fopen(n, m); }
}

static uint32_t low31(const uint8_t * m) { return ((uint32_t)m[2] << 24 | m[3] << 16 | m[4] << 8 | m[5]) & 0x7fffffff; }
static void newMac(Gen & g, uint8_t * m)
{
	for (int i = 0; i < 6; ++i) m[i] = g.weighted({ 5, 1, 1, 1, 1 }) ? g.pick<uint8_t>({ 0, 0xff, 0x80, 0x7f, 0x0a }) : g.byte();
	// numbers at the ends of their range
	if (g.chance(1, 8)) {
		bool ones = g.chance(1, 3);
		for (int i = 2; i < 6; ++i) m[i] = ones ? 0xff : 0;
		if (g.chance(1, 2)) m[2] ^= 0x80;
		if (g.chance(1, 4)) m[5] ^= 1;
	}
}
static void sources(Gen & g)
{
	sock.state = g.weighted({ 3, 1, 2, 2 });
	sock.err = g.pick<int>({ ENODEV, EPERM, EMFILE, ENOMEM, ENFILE });
	sock.family = g.pick<int>({ ARPHRD_LOOPBACK, ARPHRD_PPP, ARPHRD_INFINIBAND, ARPHRD_IEEE80211, ARPHRD_NONE, 0, ARPHRD_NETROM });
	newMac(g, sock.mac);
	sysfs.state = g.weighted({ 3, 1, 1 });
	sysfs.err = g.pick<int>({ ENOENT, EACCES, EMFILE });
	newMac(g, sysfs.mac);
	char b[64];
	const uint8_t * m = sysfs.mac;
	snprintf(b, sizeof b, g.chance(1, 4) ? "%02X:%02X:%02X:%02X:%02X:%02X" : "%02x:%02x:%02x:%02x:%02x:%02x", m[0], m[1], m[2], m[3], m[4], m[5]);
	sysfs.text = b;
	if (sysfs.state == 0) sysfs.text += "\n";
	if (sysfs.state == 2) switch (g.raw(4)) {
		case 0: sysfs.text = ""; break;
		case 1: sysfs.text = "\n"; break;
		case 2: sysfs.text.resize(g.raw(5) * 3); sysfs.text += g.chance(1, 2) ? "\n" : ""; break; // less than six bytes
		case 3: sysfs.text[g.raw(4) * 3 + 2] = g.pick<char>({ '-', ' ', 'g', '.', '\n' }); break;
		default: sysfs.text = "not an address\n";
	}
	FILE * f = __real_fopen(sysPath.c_str(), "w");
	fwrite(sysfs.text.data(), 1, sysfs.text.size(), f);
	fclose(f);
	const char * ss[] = { "has", "cannot be created, would have", "fails, would have", "is no ethernet, would have" };
	note("socket %s %s; sysfs %s '%s'", ss[sock.state], hex(sock.mac, 6).c_str(), sysfs.state == 1 ? "missing, would be" : "is", sysfs.text.c_str());
}

static void prop(Gen & g)
{
	sysPath = scratch() + "/address";
	CFG_unregisterAll();
	CFG_registerSection(SERIAL_comp.config);
	CFG_loadDefaults();
	bool known = false, configured = false;
	uint32_t value = 0;
	unsigned fails = 0, calls = 0, repeats = 0;
	sources(g);
	unsigned n = 0;
	do {
		++n;
		switch (g.weighted({ 6, 2, 1, 1 })) {
		case 0: {
			uint32_t got = 0xdeadbeef;
			bool ptr = !g.chance(1, 5);
			unsigned before = openFds();
			unsigned s0 = sockUses, y0 = sysUses;
			int r = SERIAL_ETH_getSerial(ptr ? &got : nullptr);
			unsigned after = openFds();
			note("getSerial(%s) = %d, %u", ptr ? "&serial" : "NULL", r, got);
			++calls;
			REQUIRE(before == after, "%d file descriptors leaked", (int)(after - before));
			if (known) {
				++repeats;
				REQUIRE(r == SERIAL_RETURN_SUCCESS, "returned %d although the serial number is known (%u)", r, value);
			} else if (sock.state == 0 || sysfs.state == 0) {
				value = low31(sock.state == 0 ? sock.mac : sysfs.mac);
				known = true;
				label("from %s", sock.state == 0 ? "socket" : "sysfs");
				REQUIRE(r == SERIAL_RETURN_SUCCESS, "returned %d, but the address is available", r);
				REQUIRE(sockUses > s0, "address not requested from the kernel");
				(void)y0;
			} else {
				++fails;
				REQUIRE(r == SERIAL_RETURN_FAIL_PERM, "returned %d, but no address is available", r);
				break;
			}
			if (ptr) REQUIRE(got == value, "serial number %u, expected %u%s", got, value, configured ? " (configured)" : "");
			break; }
		case 1: sources(g); break;
		case 2: { // (re)start with a configuration
			configured = g.chance(2, 3);
			known = configured;
			std::string f = scratch() + "/serial.conf", text = g.pick<const char *>({ "[DEVICE]\n", "[Device]\n", "[device]\n" });
			if (configured) {
				value = g.weighted({ 2, 1 }) ? g.pick<uint32_t>({ 0, 1, 0x7fffffff, 0x7ffffffe, 0x40000000 }) : g.u32() & 0x7fffffff;
				text += "serial = " + std::to_string(value) + "\n";
			} else if (g.chance(1, 2)) text += "serial =\n";
			FILE * o = __real_fopen(f.c_str(), "w");
			fwrite(text.data(), 1, text.size(), o);
			fclose(o);
			note("start with configuration %s", text.c_str());
			CFG_loadDefaults();
			REQUIRE(CFG_readFile(f.c_str(), true, true, false), "configuration not accepted");
			if (configured) label("configured");
			break; }
		case 3: note("start without configuration"); CFG_loadDefaults(); known = configured = false; break;
		}
	} while (n < 60 && g.more(3 + g.size() / 12.));
	if (calls >= 2 && (fails || repeats)) nontrivial();
	if (fails) label("failures");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "serial_eth", prop, 40000, 1500000, 50, 20,
			"sequences of requests, (re)starts with and without configured number and changes of what socket API and sysfs return (addresses, failures, other device kinds, unusable content). "
			"Non-trivial: at least two requests, one of them failing or repeated" },
	});
}
