// Sorts arrays with the real routines:  sort_driver SCRIPTS TRACE WORKDIR
//   a MODE SIZE KEY...     both routines, elements of SIZE bytes
#include "common.h"
#include <binary_xml/missings.h>
using namespace vh;
static Out out;
struct Ctx { unsigned magic; int mode; int size; int mag; const char *base; int n; };
static Ctx *want; static int wrong; static long ncmp, limit;
static const int PG = 1 << 20;
// an element: key in the first byte, place in the next ones (size 1: 3 bits key, 5 bits place), rest is a pattern
static int keyOf(const unsigned char *p, int size) { return size == 1 ? p[0] & 7 : p[0]; }
static int rank_(int mode, int k) { return mode == 0 ? k : mode == 1 ? -k : mode == 2 ? k % 2 : 0; }
static int cmp(const void *a, const void *b, void *arg) {
    if (++ncmp > limit) abort();                    // does not come to an end
    Ctx *c = (Ctx*)arg;
    if (c != want) { wrong++; c = want; }
    int x = rank_(c->mode, keyOf((const unsigned char*)a, c->size)), y = rank_(c->mode, keyOf((const unsigned char*)b, c->size));
    int r = x < y ? -1 : x > y ? 1 : 0;
    return c->mag == 0 ? r : r < 0 ? -(x - y > -100 ? 0x7fffffff : 5) - 1 : r > 0 ? 0x7fffffff : 0;
}
static void make(unsigned char *p, int size, int key, int i) {
    if (size == 1) { p[0] = (key & 7) | (i << 3); return; }
    p[0] = key; p[1] = i & 255; if (size > 2) p[2] = (i >> 8) & 255;
    for (int j = 3; j < size; j++) p[j] = (unsigned char)(i * 7 + j * 13 + key);
}
int main(int argc, char **argv) {
    auto S = readScripts(argv[1]); out.open(argv[2]); quiet();
    for (auto &s : S) {
        pid_t c = fork();
        if (c == 0) {
            limits(60);
            char *area = (char*)mmap(0, PG + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(area + PG, 4096, PROT_NONE);
            out.line(Obj().s("n", "RESET").s("s", s.id).done());
            int turn = 0;
            for (auto &o : s.ops) {
                static const char *M[] = {"up", "down", "par", "flat"};
                int mode = 0; for (int i = 0; i < 4; i++) if (o[1] == M[i]) mode = i;
                int size = atoi(o[2].c_str()); std::vector<int> k; for (size_t i = 3; i < o.size(); i++) k.push_back(atoi(o[i].c_str()));
                int n = k.size();
                for (int f = 0; f < 2; f++) {
                    unsigned char *b = (unsigned char*)area + PG - (size_t)n * size; memset(area, 0x5a, 0); memset(b - 128, 0x5a, 128);
                    for (int i = 0; i < n; i++) make(b + i * size, size, k[i], i + 1);
                    Ctx x = {0xc0ffee, mode, size, turn++ & 1, (char*)b, n}; want = &x; wrong = 0; ncmp = 0; limit = 1000 + (long)n * n * 4;
                    (f ? qsort_r2 : mergesort_r2)(b, n, size, cmp, &x);
                    int bad = 0; std::vector<std::string> R;
                    for (int i = 0; i < 128; i++) if ((b - 128)[i] != 0x5a) bad++;
                    for (int i = 0; i < n; i++) {
                        unsigned char *p = b + i * size, q[512];
                        int key = keyOf(p, size), at = size == 1 ? p[0] >> 3 : size == 2 ? p[1] : p[1] | p[2] << 8;
                        make(q, size, key, at); if (memcmp(p, q, size)) bad++;
                        R.push_back(jints(std::vector<int>{key, at}));
                    }
                    out.line(Obj().s("n", "sort").s("f", f ? "quick" : "merge").s("o", M[mode]).i("z", size).raw("a", jints(k)).raw("res", jlist(R)).i("bad", bad).i("ctx", wrong).done());
                    out.flush();
                }
            }
            out.flush(); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { out.line(crashLine(st)); out.flush(); }
    }
    return 0;
}
