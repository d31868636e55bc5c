// Conversions as changes of a directory of files:  disk_driver SCRIPTS TRACE WORKDIR
//   Names are lists of tokens separated by commas: ./ d/ d.x/ no/ a .v1 .xml ...
//   put NAME KIND N              the file NAME becomes document N as xml or json, or junk
//   conv SRC DST|- xb|xbw P L    SRC is converted to DST (-: the default name), packed (P), while files cannot be longer
//                                than L says (-1: no limit; 0..10: L tenths of what is needed, 11: 1 less, 12: exactly that)
//   open NAME                    a reader is opened
//   get NAME                     Bin_xml_packer::GetXB
//   Every event shows all the files: x path, c content (xml, json, xb, xbw, part), d number of the document (-1: none, -2: none of them)
#include "common.h"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_xml_plugin.h>
#include <binary_xml/bin_write_plugin.h>
#include <filesystem>
#include <sys/resource.h>
#include <algorithm>
using namespace vh;
using namespace pklib_xml;
namespace fs = std::filesystem;
static Out out;
const int NDOC = 5; static const int COUNT[NDOC] = {0, 1, 7, 60, 420};
static std::vector<std::string> toks(const std::string &s) { std::vector<std::string> v; std::istringstream is(s); std::string w; while (std::getline(is, w, ',')) v.push_back(w); return v; }
static std::string cat(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x; return o; }
static std::string jt(const std::vector<std::string> &v) { std::vector<std::string> o; for (auto &x : v) o.push_back(jstr(x)); return jlist(o); }
static std::string text(const std::string &k, int n) {
    std::string o; if (k == "junk") return std::string("\x01<d v='\0{[", 10) + std::string(n * 100, '\x02');
    if (k == "xml") { o = "<d><v>" + std::to_string(n) + "</v>"; for (int i = 0; i < COUNT[n]; i++) o += "<e>" + std::to_string(i) + "</e>"; return o + "</d>\n"; }
    o = "{\"v\":" + std::to_string(n); for (int i = 0; i < COUNT[n]; i++) o += ",\"e\":" + std::to_string(i); return o + "}\n";
}
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void save(const std::string &f, const std::string &b) { std::ofstream o(f, std::ios::binary); o << b; }
struct Seen { int v = -1, e = 0; bool bad = false; int doc() const { return !bad && v >= 0 && v < NDOC && e == COUNT[v] ? v : -2; } void see(const char *n, const char *t) {
    if (!strcmp(n, "v")) { if (v != -1 || !t) bad = true; else v = atoi(t); } else if (!strcmp(n, "e")) { if (!t || atoi(t) != e) bad = true; e++; } } };
static void scan(XB_reader &R, XML_Item *X, Seen &S) { const char *t = X->getString(); S.see(R.getNodeName(X->name), t); for (int i = 0; i < X->childcount; i++) scan(R, X->getChildByIndex(i), S); }
static void scanW(BW_plugin &W, BW_element *X, Seen &S) {
    S.see(W.getNodeName(X), XBT_ToString((XML_Binary_Type)X->value_type, (const char*)(X + 1))); struct K { std::vector<BW_element*> v; } k;
    W.ForAllChildren([](void *x, void *u) { ((K*)u)->v.push_back((BW_element*)x); }, X, &k); for (auto *c : k.v) scanW(W, c, S);
}
static int docOf(const std::string &f, std::string *now = nullptr) { // -1 not opened
    char nm[PATH_MAX]; snprintf(nm, sizeof nm, "%s", f.c_str()); XB_reader R(nm); R.setVerbosity(0); int d = -1;
    if (R.Initialize() && R.getRoot()) { Seen S; scan(R, R.getRoot(), S); d = S.doc(); }
    R.Finalize(); if (now) *now = nm; return d;
}
static std::string listing() {
    std::vector<std::string> o; std::vector<std::string> P; for (auto &x : fs::recursive_directory_iterator(".")) if (!x.is_directory()) P.push_back(x.path().string().substr(2));
    std::sort(P.begin(), P.end());
    for (auto &p : P) {
        std::string b = slurp(p), c = "part"; int d = -1;
        for (const char *k : {"xml", "json"}) for (int n = 0; n < NDOC; n++) if (b == text(k, n)) { c = k; d = n; }
        if (c == "part") { save("../probe.xb", b); int k = docOf("../probe.xb"); if (k != -1) { c = "xb"; d = k; } }
        if (c == "part" && b.size() > 200 && b.size() < (1 << 24)) { save("../probe.xbw", b); BW_plugin W("../probe.xbw", nullptr, 0x40000, 0); if (W.Initialize()) { c = "xbw"; if (W.getRoot()) { Seen S; scanW(W, (BW_element*)W.getRoot(), S); d = S.doc(); } } }
        o.push_back(Obj().s("x", p).s("c", c).i("d", d).done());
    }
    return jlist(o);
}
static bool run(const std::string &s, const std::string &d, bool def, bool xbw, bool pack) {
    std::vector<char> D(d.begin(), d.end()); D.push_back(0); char *dst = def ? nullptr : D.data();
    if (def) { // a source which is already open
        Bin_src_plugin *P = BIN_SRC_PLUGIN_SELECTOR(s.c_str(), nullptr); if (!P) return false; bool r;
        if (xbw) { Bin_xml_creator X(P, nullptr, XBTARGET_XBW); r = X.DoAll(); } else if (pack) { Bin_xml_packer X(P, nullptr); r = X.DoAll(); } else { Bin_xml_creator X(P); r = X.DoAll(); }
        delete P; return r;
    }
    if (xbw) { Bin_xml_creator X(s.c_str(), dst, XBTARGET_XBW); return X.DoAll(); }
    return pack ? Bin_xml_packer::Convert(s.c_str(), dst) : Bin_xml_creator::Convert(s.c_str(), dst);
}
static long long len(const std::string &f) { std::error_code e; auto n = fs::file_size(f, e); return e ? -1 : (long long)n; }
static void step(std::vector<std::string> &o) {
    auto T = toks(o[1]); std::string s = cat(T); Obj ev; ev.s("n", o[0]).raw("s", jt(T));
    if (o[0] == "put") { save(s, text(o[2], atoi(o[3].c_str()))); ev.s("k", o[2]).i("d", atoi(o[3].c_str())); }
    else if (o[0] == "conv") {
        bool def = o[2] == "-", xbw = o[3] == "xbw", pack = o[4] == "1"; auto D = def ? std::vector<std::string>() : toks(o[2]); int L = atoi(o[5].c_str()); long long need = -1, lim = -1;
        if (L >= 0 && fs::exists(s)) { bool k = run(s, xbw ? "../ref.xbw" : "../ref.xb", false, xbw, false); if (k) need = len(xbw ? "../ref.xbw" : "../ref.xb"); unlink("../ref.xb"); unlink("../ref.xbw"); }
        if (need >= 0) lim = L <= 10 ? need * L / 10 : L == 11 ? need - 1 : need;
        struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); auto sg = signal(SIGXFSZ, SIG_IGN); out.flush();
        if (lim >= 0) { nw = old; nw.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &nw); }
        bool r = run(s, cat(D), def, xbw, pack);
        setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sg);
        ev.i("def", def).raw("t", jt(D)).s("k", o[3]).i("pack", pack).i("lim", lim).i("need", need).i("r", r);
    } else if (o[0] == "open") { std::string now; int d = docOf(s, &now); ev.i("d", d).s("now", now); }
    else if (o[0] == "get") { char nm[PATH_MAX] = ""; const char *err = nullptr; bool r = Bin_xml_packer::GetXB(s.c_str(), nm, &err); ev.i("r", r).i("err", err != nullptr).s("now", r ? nm : ""); }
    out.line(ev.raw("files", listing()).done());
}
int main(int argc, char **argv) {
    auto S = readScripts(argv[1]); out.open(argv[2]); if (chdir(argv[3])) return 2; if(!getenv("LOUD")) quiet();
    for (auto &s : S) {
        fs::remove_all("t"); fs::create_directories("t/d"); fs::create_directories("t/d.x");
        pid_t c = fork();
        if (c == 0) {
            limits(120); if (chdir("t")) _exit(91);
            out.line(Obj().s("n", "RESET").s("s", s.id).done());
            for (auto &o : s.ops) { out.flush(); step(o); }
            out.flush(); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { out.line(crashLine(st)); out.flush(); }
    }
    return 0;
}
