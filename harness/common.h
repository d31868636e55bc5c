// Shared helpers of the drivers: NDJSON output, script input, process isolation.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>

namespace vh {

inline std::string hex(const void *p, size_t n) {
    static const char *H = "0123456789abcdef";
    std::string s; const unsigned char *c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { s += H[c[i] >> 4]; s += H[c[i] & 15]; }
    return s;
}
// canonical form of a byte string: short ones in hex, long ones as length and FNV hash
inline std::string canon(const void *p, long n) {
    if (n < 0) return "neg" + std::to_string(n);
    if (n <= 24) return "x" + hex(p, n);
    uint64_t h = 1469598103934665603ull; const unsigned char *c = (const unsigned char*)p;
    for (long i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    char b[64]; snprintf(b, sizeof b, "n%ld:%016llx", n, (unsigned long long)h);
    return b;
}
inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline std::string unpct(const std::string &s) { // %XX decoding, "%" alone is the empty string
    if (s == "%") return "";
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size() + 0) { o += (char)strtol(s.substr(i+1,2).c_str(), 0, 16); i += 2; }
        else o += s[i];
    return o;
}
struct Obj { // JSON object builder
    std::string b = "{"; bool first = true;
    Obj &raw(const char *k, const std::string &v) { if (!first) b += ","; first = false; b += "\""; b += k; b += "\":"; b += v; return *this; }
    Obj &s(const char *k, const std::string &v) { return raw(k, jstr(v)); }
    Obj &i(const char *k, long long v) { return raw(k, std::to_string(v)); }
    std::string done() const { return b + "}"; }
};
template<class C> std::string jints(const C &c) { std::string o = "["; bool f = true; for (auto v : c) { if (!f) o += ","; f = false; o += std::to_string(v); } return o + "]"; }
inline std::string jstrs(const std::vector<std::string> &c) { std::string o = "["; bool f = true; for (auto &v : c) { if (!f) o += ","; f = false; o += jstr(v); } return o + "]"; }
inline std::string jlist(const std::vector<std::string> &c) { std::string o = "["; bool f = true; for (auto &v : c) { if (!f) o += ","; f = false; o += v; } return o + "]"; }

struct Script { std::string id; std::vector<std::vector<std::string>> ops; };
inline std::vector<Script> readScripts(const char *path) {
    std::vector<Script> R; std::ifstream f(path); std::string line;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        std::istringstream is(line); std::vector<std::string> t; std::string w;
        while (is >> w) t.push_back(w);
        if (t[0] == "S") { R.push_back(Script{t.size() > 1 ? t[1] : "", {}}); continue; }
        if (t[0] == "E") continue;
        R.back().ops.push_back(t);
    }
    return R;
}
struct Out { // unbuffered line output, shared by forked children
    int fd = -1; std::string buf;
    void open(const char *p) { fd = ::open(p, O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644); if (fd < 0) { perror(p); exit(2); } }
    void line(const std::string &s) { buf += s; buf += '\n'; }
    void flush() { size_t o = 0; while (o < buf.size()) { ssize_t n = ::write(fd, buf.data()+o, buf.size()-o); if (n <= 0) _exit(97); o += n; } buf.clear(); }
};
inline void quiet() { // the library is chatty
    int n = open("/dev/null", O_RDWR); dup2(n, 1); if (!getenv("VERIF_NOISY")) dup2(n, 2); close(n);
}
inline void limits(int cpu_s) {
    struct rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
    r.rlim_cur = cpu_s; r.rlim_max = cpu_s + 1; setrlimit(RLIMIT_CPU, &r);
    r.rlim_cur = r.rlim_max = 256u << 20; setrlimit(RLIMIT_FSIZE, &r);
}
inline std::string crashLine(int st) {
    Obj o; o.s("n", "CRASH");
    if (WIFSIGNALED(st)) o.i("sig", WTERMSIG(st)).i("rc", -1); else o.i("sig", 0).i("rc", WEXITSTATUS(st));
    return o.done();
}
} // namespace vh
#endif
