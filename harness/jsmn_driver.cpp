// Executes texts on the real JSON tokenizer:  jsmn_driver SCRIPTS TRACE WORKDIR
//   t HEX        the whole protocol without cuts;  T HEX  also with the text cut after every character
#include "common.h"
#include <binary_xml/jsmn/jsmn.h>
#include <sys/mman.h>
using namespace vh;
static Out out;
static const int PG = 1 << 16, MORE = 4;
static char *guard() { static char *p = 0; if (!p) { p = (char*)mmap(0, 2 * PG, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(p + PG, PG, PROT_NONE); } return p + PG; }
struct Parser { // token storage ends at an unmapped page
    jsmn_parser p; jsmntok_t *t = 0; unsigned n = 0; bool over = false; static char *area; static size_t size;
    Parser() { jsmn_init(&p); }
    int run(const char *js, size_t len, unsigned ntok) {
        std::vector<jsmntok_t> keep(t, t + std::min<unsigned>(p.toknext, n));
        if (!area) { size = 1 << 18; area = (char*)mmap(0, size + PG, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(area + size, PG, PROT_NONE); }
        n = ntok; t = (jsmntok_t*)(area + size - n * sizeof(jsmntok_t));
        memset((char*)t - 64, 0x5a, 64); memset(t, 0x33, n * sizeof(jsmntok_t)); if (keep.size()) memcpy(t, keep.data(), keep.size() * sizeof(jsmntok_t));
        int r = jsmn_parse(&p, js, len, t, n);
        for (int i = 0; i < 64; i++) if (((char*)t)[i - 64] != 0x5a) over = true;
        for (unsigned i = std::min(p.toknext, n); i < n; i++) for (size_t j = 0; j < sizeof(jsmntok_t); j++) if (((char*)&t[i])[j] != 0x33) over = true;
        if (p.toknext > n) over = true;
        return r;
    }
    std::string show(int r) {
        std::vector<std::string> L;
        for (unsigned i = 0; i < p.toknext && i < n; i++) { std::vector<int> v = {(int)t[i].type, t[i].start, t[i].end, t[i].size, t[i].parent}; L.push_back(jints(v)); }
        return Obj().i("r", r).i("pos", p.pos).i("sup", p.toksuper).raw("tk", jlist(L)).done();
    }
};
char *Parser::area = 0; size_t Parser::size = 0;
static void one(const std::string &hex, bool cuts) {
    std::string s; for (size_t i = 0; i + 1 < hex.size(); i += 2) s += (char)strtol(hex.substr(i, 2).c_str(), 0, 16);
    char *js = guard() - s.size(); memcpy(js, s.data(), s.size());
    std::vector<int> codes; for (unsigned char c : s) codes.push_back(c);
    unsigned big = s.size() + MORE; bool over = false;
    jsmn_parser cp; jsmn_init(&cp); int c = jsmn_parse(&cp, js, s.size(), nullptr, 0);
    Parser F; int fr = F.run(js, s.size(), big); std::string full = F.show(fr); over |= F.over;
    std::vector<std::string> K, D;
    unsigned nk = std::min(F.p.toknext, 12u);
    for (unsigned k = 0; k <= nk; k++) {
        unsigned q = k < nk ? k : F.p.toknext;
        if (q != k) break;
        Parser P; int r = P.run(js, s.size(), k); over |= P.over; Obj o; o.i("r", r).i("pos", P.p.pos).i("nx", P.p.toknext);
        if (r == JSMN_ERROR_NOMEM) { int r2 = P.run(js, s.size(), big); over |= P.over; o.raw("f", P.show(r2)); } else o.raw("f", "{}");
        K.push_back(o.done());
    }
    if (cuts) for (size_t k = 0; k < s.size(); k++) {
        Parser P; 
        char *cut = guard() - k; std::string keep = s; memcpy(cut, s.data(), k);      // the piece ends at the page
        int r = P.run(cut, k, big); over |= P.over; memcpy(js, s.data(), s.size());
        Obj o; o.i("r", r);
        if (r != JSMN_ERROR_INVAL) { int r2 = P.run(js, s.size(), big); over |= P.over; o.raw("f", P.show(r2)); } else o.raw("f", "{}");
        D.push_back(o.done());
    }
    out.line(Obj().s("n", "text").raw("t", jints(codes)).i("c", c).raw("f", full).i("over", over).raw("k", jlist(K)).raw("d", jlist(D)).done());
}
int main(int argc, char **argv) {
    auto S = readScripts(argv[1]); out.open(argv[2]); quiet();
    size_t batch = 64;
    for (size_t i = 0; i < S.size(); i++) {
        pid_t c = fork();
        if (c == 0) {
            limits(60);
            out.line(Obj().s("n", "RESET").s("s", S[i].id).done());
            for (auto &o : S[i].ops) { one(o.size() > 1 ? o[1] : "", o[0] == "T"); out.flush(); }
            out.flush(); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { out.line(crashLine(st)); out.flush(); }
    }
    return 0;
}
