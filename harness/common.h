// Shared parts of the two harness processes: virtual time, live object table, statistics,
// line based command channel on stdin/stdout.
#pragma once
#include <QCoreApplication>
#include <QObject>
#include <QHash>
#include <QSet>
#include <QThread>
#include <QDir>
#include <QMetaObject>
#include <QLoggingCategory>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dirent.h>
#include <poll.h>

namespace hx {

// ---------------------------------------------------------------- virtual time
// The clock the process sees stands still except for "A <ms>" commands.
extern long long g_advancedNs;
extern bool g_virtual;
inline void realTime(clockid_t id, timespec *ts) { syscall(SYS_clock_gettime, id, ts); }
inline long long realMs() { timespec ts; realTime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000; }

// ---------------------------------------------------------------- output
extern std::string g_out;
inline void out(const std::string &s) { g_out += s; g_out += '\n'; }
inline void done(const char *word = "ok") { g_out += ". "; g_out += word; g_out += '\n'; }
inline void flushOut()
{
    size_t off = 0;
    while (off < g_out.size()) {
        ssize_t n = ::write(1, g_out.data() + off, g_out.size() - off);
        if (n <= 0) _exit(90);
        off += n;
    }
    g_out.clear();
}

inline std::string hex(const QByteArray &b) { return b.isEmpty() ? std::string("-") : b.toHex().toStdString(); }
inline QByteArray unhex(const std::string &s) { return s == "-" ? QByteArray("") : QByteArray::fromHex(QByteArray::fromStdString(s)); }
inline std::string jstr(const QString &s)
{
    std::string r = "\"";
    for (QChar c : s) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c.unicode());
        r += b;
    }
    return r + "\"";
}

// ---------------------------------------------------------------- pump
// Processes events until several rounds in a row had nothing to do.
int pump(int quietRounds = 3);
void advance(long long ms, long long stepMs);

std::string statsJson();
void installHooks();
bool commonCommand(const std::string &cmd, std::istringstream &in);
int commandLoop(void (*handle)(const std::string &cmd, std::istringstream &in));

}
