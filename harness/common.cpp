#include "common.h"
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <QAbstractEventDispatcher>
#include <mutex>
#include <unordered_set>

// Qt's table of hooks for debugging tools (qhooks_p.h is not installed here).
extern quintptr Q_CORE_EXPORT qtHookData[];
enum { HookAddQObject = 3, HookRemoveQObject = 4 };

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heapBytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t heapBytes() { return mallinfo2().uordblks; }
#endif

namespace hx {
long long g_advancedNs = 0;
bool g_virtual = true;
int g_connectError = 0;
std::string g_out;
static timespec s_baseMono, s_baseReal;
static bool s_baseSet = false;

static void virtualNow(clockid_t id, timespec *ts)
{
    if (!s_baseSet) {
        realTime(CLOCK_MONOTONIC, &s_baseMono);
        realTime(CLOCK_REALTIME, &s_baseReal);
        s_baseReal.tv_nsec = 0; // whole second, so that runs look alike
        s_baseSet = true;
    }
    const timespec &b = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? s_baseReal : s_baseMono;
    long long ns = b.tv_nsec + g_advancedNs;
    ts->tv_sec = b.tv_sec + ns / 1000000000LL;
    ts->tv_nsec = ns % 1000000000LL;
}
}

static bool clockIsVirtual(clockid_t id)
{
    return hx::g_virtual && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE
                             || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME);
}

extern "C" __attribute__((visibility("default"), no_sanitize("address", "undefined"))) int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (clockIsVirtual(id)) {
        hx::virtualNow(id, ts);
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

// A machine without network: attempts fail at once, within the call.
extern "C" __attribute__((visibility("default"))) int connect(int fd, const struct sockaddr *addr, socklen_t len)
{
    if (hx::g_connectError && addr && (addr->sa_family == AF_INET || addr->sa_family == AF_INET6)) {
        errno = hx::g_connectError;
        return -1;
    }
    return syscall(SYS_connect, fd, addr, len);
}

extern "C" __attribute__((visibility("default"), no_sanitize("address", "undefined"))) int gettimeofday(struct timeval *tv, void *tz) noexcept
{
    (void)tz;
    if (!tv) return 0;
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

extern "C" __attribute__((visibility("default"), no_sanitize("address", "undefined"))) time_t time(time_t *t) noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

// Virtual time is much faster than the delayed acknowledgements which Nagle's algorithm waits for.
extern "C" __attribute__((visibility("default"), no_sanitize("address", "undefined"))) int socket(int domain, int type, int protocol) noexcept
{
    int fd = static_cast<int>(syscall(SYS_socket, domain, type, protocol));
    if (fd >= 0 && (domain == AF_INET || domain == AF_INET6) && (type & 0xf) == SOCK_STREAM) {
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    return fd;
}

namespace hx {

static std::unordered_set<QObject *> &live() { static std::unordered_set<QObject *> s; return s; }
static bool s_hooked = false;
// Name lookups have objects in other threads
static std::mutex &liveMutex() { static std::mutex m; return m; }
static void onAdd(QObject *o) { std::lock_guard<std::mutex> l(liveMutex()); live().insert(o); }
static void onRemove(QObject *o) { std::lock_guard<std::mutex> l(liveMutex()); live().erase(o); }

void installHooks()
{
    qtHookData[HookAddQObject] = reinterpret_cast<quintptr>(&onAdd);
    qtHookData[HookRemoveQObject] = reinterpret_cast<quintptr>(&onRemove);
    s_hooked = true;
}

static int fdCount()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n - 3;
}

std::string statsJson()
{
    std::map<std::string, int> classes;
    std::lock_guard<std::mutex> l(liveMutex());
    for (QObject *o : live()) {
        if (o == nullptr) continue;
        classes[o->metaObject()->className()]++;
    }
    std::ostringstream s;
    s << "{\"objects\":" << live().size() << ",\"heap\":" << heapBytes() << ",\"fds\":" << fdCount() << ",\"classes\":{";
    bool first = true;
    for (auto &c : classes) {
        if (!first) s << ",";
        first = false;
        s << "\"" << c.first << "\":" << c.second;
    }
    s << "}}";
    return s.str();
}

int pump(int quietRounds)
{
    int rounds = 0, quiet = 0;
    long long start = realMs();
    while (quiet < quietRounds) {
        QCoreApplication::sendPostedEvents();
        bool any = QCoreApplication::eventDispatcher()->processEvents(QEventLoop::AllEvents);
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        quiet = any ? 0 : quiet + 1;
        rounds++;
        if (realMs() - start > 60000) {
            out("hang pump did not become idle");
            break;
        }
    }
    return rounds;
}

void advance(long long ms, long long stepMs)
{
    while (ms > 0) {
        long long d = ms < stepMs ? ms : stepMs;
        g_advancedNs += d * 1000000LL;
        ms -= d;
        pump(1);
    }
    pump();
}

bool commonCommand(const std::string &cmd, std::istringstream &in)
{
    if (cmd == "P") {
        int n = 3;
        in >> n;
        pump(n);
        done();
    } else if (cmd == "A") {
        long long ms = 0, step = 50;
        in >> ms >> step;
        advance(ms, step);
        done();
    } else if (cmd == "W") { // real wait of ms, pumping (for work that other processes have to do)
        long long ms = 0;
        in >> ms;
        long long end = realMs() + ms;
        do { pump(1); usleep(500); } while (realMs() < end);
        done();
    } else if (cmd == "S") {
        out("stats " + statsJson());
        done();
    } else if (cmd == "T") {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        out("time " + std::to_string(ts.tv_sec));
        done();
    } else if (cmd == "V") {
        int v = 1;
        in >> v;
        g_virtual = v;
        done();
    } else if (cmd == "N") {
        in >> g_connectError;
        done();
    } else if (cmd == "log") {
        int on = 0;
        in >> on;
        QLoggingCategory::setFilterRules(on ? "*.debug=true\n*.info=true" : "*.debug=false\n*.info=false\n*.warning=false\nqt.*=false");
        done();
    } else {
        return false;
    }
    return true;
}

int commandLoop(void (*handle)(const std::string &cmd, std::istringstream &in))
{
    std::string buf;
    char chunk[65536];
    for (;;) {
        size_t nl;
        size_t pos = 0;
        while ((nl = buf.find('\n', pos)) != std::string::npos) {
            std::istringstream in(buf.substr(pos, nl - pos));
            pos = nl + 1;
            std::string cmd;
            in >> cmd;
            if (cmd.empty()) continue;
            if (cmd == "Q") {
                done();
                flushOut();
                return 0;
            }
            if (!commonCommand(cmd, in)) handle(cmd, in);
            if (g_out.size() > 60000) flushOut();
        }
        buf.erase(0, pos);
        flushOut();
        ssize_t n = ::read(0, chunk, sizeof chunk);
        if (n <= 0) return 0;
        buf.append(chunk, n);
    }
}

}
