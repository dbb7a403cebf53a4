// Recording replacement of the log component.
#pragma once
#include <string>
#include <vector>
struct LogLine { int level; std::string prefix, msg; };
namespace logstub {
std::vector<LogLine> take();                 // lines since the last take
bool contains(const std::vector<LogLine> & l, const char * part, int minLevel = 0);
extern void (*onEmerg)(const LogLine &);     // default: the case fails
extern bool record;                          // default: false
extern bool echo;                            // print log lines to stderr
}
