// Typed values:  values_driver SCRIPTS TRACE WORKDIR
//   fs TYPE OFF HEX          text -> binary, the place starts OFF bytes behind an aligned address; binary -> text
//   ts TYPE HEX SIZE...      binary value (with its size prefix, if the type has one) -> text; at once, streamed and in
//                            pieces read with every given buffer size in turn; text -> binary
//   dt HEX                   detected type of a text, the value stored as it, and its text
//   jn TYPE TYPE             joined type
//   d2 TYPE HEX...           type of a name whose values are the texts, in this order
//   cm TYPE HEX TYPE HEX     order and equality of two values
//   fp TYPE KEY HEX... / OTHER  search of a child by the value of its attribute: values of the children, then the value wanted
#include "common.h"
#include <binary_xml/bin_write_plugin.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/macros.h>
using namespace vh;
using namespace pklib_xml;
static Out out;
static const size_t PG = 1 << 20;
static char *area;      // PG bytes, then a page that cannot be touched
static std::string unhex(const std::string &h) {
    std::string o; for (size_t i = 1; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return o;
}
static std::string bytes(const void *p, long n) { std::vector<int> v; for (long i = 0; i < n; i++) v.push_back(((const unsigned char*)p)[i]); return jints(v); }
static std::string bytes(const std::string &s) { return bytes(s.data(), s.size()); }
static const char *nameOf(XML_Binary_Type t) { return t == XBT_UNKNOWN ? "UNKNOWN" : t == XBT_LAST ? "LAST" : t < 0 || t > XBT_LAST ? "?" : XML_BINARY_TYPE_NAMES[t]; }
static XML_Binary_Type typeOf(const std::string &n) { for (int i = 0; i <= XBT_LAST; i++) if (n == nameOf((XML_Binary_Type)i)) return (XML_Binary_Type)i; _exit(96); }
static bool var(XML_Binary_Type t) { return XBT_IS_VARSIZE(t); }
static const int al(XML_Binary_Type t) { int a = XBT_Align(t); return a < 1 ? 1 : a; }

// stores text into room bytes at off; result: number of bytes used or -1; damage: bytes outside of the room
static long store(const std::string &text, XML_Binary_Type ty, int off, long room, int &damage) {
    char *b = area + PG / 2;                                   // aligned
    long n = 4096 + text.size() * 4;
    memset(b - 64, 0xA5, n + 128);
    char *wp = b + off, *limit = wp + room;
    std::string t(text);                                        // the text ends with its own terminator
    bool ok = XBT_FromString(t.c_str(), ty, &wp, limit);
    damage = 0;
    for (char *p = b - 64; p < b + n + 64; p++) if ((p < b + off || p >= limit) && (unsigned char)*p != 0xA5) damage++;
    if (!ok) return -1;
    return wp - (b + off);
}
static std::string text(XML_Binary_Type ty, const char *p, int &null) { const char *r = XBT_ToString(ty, p); null = r == nullptr; return r ? std::string(r) : ""; }
static long firstFit(const std::string &t, XML_Binary_Type ty, int off, long used, int &damage) { // the smallest room that is enough, damage done by smaller ones
    damage = 0;
    for (long r = 0; r <= used; r++) { int d; long u = store(t, ty, off, r, d); damage += d; if (u >= 0) return u == used ? r : -2; }
    return -1;
}
static void step(std::vector<std::string> &o, const char *wd) {
    if (o[0] == "fs") {
        XML_Binary_Type ty = typeOf(o[1]); int off = atoi(o[2].c_str()); std::string t = unhex(o[3]); int bad, bad2 = 0, null = 0; std::string t2; long fit = -1;
        long u = store(t, ty, off, 4096 + t.size() * 4 - off, bad); std::string raw;
        if (u >= 0) { raw.assign(area + PG / 2 + off, u); t2 = text(ty, area + PG / 2 + off, null); if (t.size() < 80) fit = firstFit(t, ty, off, u, bad2); else fit = u; }
        out.line(Obj().s("n", "fs").s("ty", o[1]).i("off", off).raw("t", bytes(t)).i("ok", u >= 0).raw("raw", bytes(raw)).raw("t2", bytes(t2)).i("null", null).i("fit", fit).i("bad", bad + bad2).done());
    } else if (o[0] == "ts") {
        XML_Binary_Type ty = typeOf(o[1]); std::string raw = unhex(o[2]); int a = al(ty);
        char *p = area + PG - (raw.size() + a - 1) / a * a;             // the value ends where the page ends
        if (ty == XBT_SHA1) p -= 4;
        memcpy(p, raw.data(), raw.size());
        int null, bad = 0; std::string t = text(ty, p, null);
        std::ostringstream st, xm; XBT_ToStringStream(ty, p, st); XBT_ToXMLStream(ty, p, xm);
        static char dst[1 << 17]; std::vector<std::string> P;
        for (int turn = 0; o.size() > 3 && turn < (int)o.size() - 2; turn++) { // turn 0: all the sizes alternating, then every one alone
            int offset = 0; std::vector<std::string> pcs; int i = 0; bool end = false;
            for (int n = 0; n < 5000 && !end; n++) {
                int size = atoi(o[turn == 0 ? 3 + i++ % (o.size() - 3) : 2 + turn].c_str());
                memset(dst, 0x5A, size + 128);
                int r = XBT_ToStringChunk(ty, p, offset, dst + 64, size);
                for (int k = 0; k < 64; k++) bad += dst[k] != 0x5A || dst[64 + size + k] != 0x5A;
                if (r == 0) { end = true; break; }
                if (r < 0 || r >= size || strlen(dst + 64) != (size_t)r) { bad += 1000; break; }
                pcs.push_back(bytes(dst + 64, r));
            }
            P.push_back(Obj().raw("p", jlist(pcs)).i("end", end).done());
        }
        int d; long u = store(t, ty, 0, 4096 + t.size() * 4, d); std::string b2; if (u >= 0) b2.assign(area + PG / 2, u);
        out.line(Obj().s("n", "ts").s("ty", o[1]).raw("raw", bytes(raw)).raw("t", bytes(t)).i("null", null).raw("st", bytes(st.str())).raw("xm", bytes(xm.str())).raw("pc", jlist(P)).i("ok", u >= 0).raw("b2", bytes(b2)).i("bad", bad + d).done());
    } else if (o[0] == "dt") {
        std::string t = unhex(o[1]); XML_Binary_Type ty = XBT_Detect(t.c_str()); int bad, null = 0; std::string raw, t2;
        long u = store(t, ty, 0, 4096 + t.size() * 4, bad);
        if (u >= 0) { raw.assign(area + PG / 2, u); if (ty != XBT_NULL) t2 = text(ty, area + PG / 2, null); }
        out.line(Obj().s("n", "dt").raw("t", bytes(t)).s("ty", nameOf(ty)).i("ok", u >= 0).raw("raw", bytes(raw)).raw("t2", bytes(t2)).i("bad", bad).done());
    } else if (o[0] == "jn") {
        out.line(Obj().s("n", "jn").s("a", o[1]).s("b", o[2]).s("r", nameOf(XBT_JoinTypes(typeOf(o[1]), typeOf(o[2])))).done());
    } else if (o[0] == "d2") {
        XML_Binary_Type ty = typeOf(o[1]); std::vector<std::string> D;
        for (size_t i = 2; i < o.size(); i++) { std::string t = unhex(o[i]); D.push_back(jstr(nameOf(XBT_Detect(t.c_str())))); ty = XBT_Detect2(t.c_str(), ty); }
        out.line(Obj().s("n", "d2").s("from", o[1]).raw("d", jlist(D)).s("r", nameOf(ty)).done());
    } else if (o[0] == "cm") {
        XML_Binary_Type ta = typeOf(o[1]), tb = typeOf(o[3]); std::string a = unhex(o[2]), b = unhex(o[4]);
        // the contents lie side by side, so that bytes of the one never continue the other
        auto place = [&](char *at, XML_Binary_Type t, const std::string &v) { memset(at, 0x5A, v.size() + 64); memcpy(at, v.data(), v.size()); };
        char *pa = area + 4096, *pb = area + PG / 2 + 4096; place(pa, ta, a); place(pb, tb, b);
        int va = var(ta) ? 4 : 0, vb = var(tb) ? 4 : 0;
        auto sg = [](int r) { return r == (int)INT_NULL_VALUE ? 2 : r < 0 ? -1 : r > 0 ? 1 : 0; };
        int r = sg(XBT_Compare(ta, pa + va, a.size() - va, tb, pb + vb, b.size() - vb)), q = sg(XBT_Compare(tb, pb + vb, b.size() - vb, ta, pa + va, a.size() - va));
        XML_Binary_Data_Ref A, B; A.type = ta; A.data = pa; A.content = pa + va; A.size = a.size(); A.content_size = a.size() - va;
        B.type = tb; B.data = pb; B.content = pb + vb; B.size = b.size(); B.content_size = b.size() - vb;
        int e = XBT_Equal(A, B), f = XBT_Equal(B, A);
        out.line(Obj().s("n", "cm").s("ta", o[1]).raw("a", bytes(a)).s("tb", o[3]).raw("b", bytes(b)).i("r", r).i("q", q).i("e", e).i("f", f).done());
    } else if (o[0] == "fp") {
        XML_Binary_Type ty = typeOf(o[1]), tk = typeOf(o[2]); std::string file = std::string(wd) + "/fp.xbw"; unlink(file.c_str());
        int res = -9; std::vector<std::string> V; std::string k;
        {
            BW_plugin W(file.c_str(), nullptr, 0x40000, 0);
            if (!W.Initialize()) _exit(95);
            W.registerTag(0, "root", XBT_NULL); W.registerTag(1, "item", XBT_NULL); W.registerTag(2, "other", XBT_NULL); W.registerAttr(0, "key", ty); W.registerAttr(1, "k2", ty); if (!W.allRegistered()) _exit(93);
            W.setRoot(W.tag(0)); BW_element *root = W.getRoot(); int i = 0; size_t j = 3; std::vector<BW_offset_t> E;
            auto at = [&](BW_element *e, int id, const std::string &r) {
                static char m[1 << 16]; memset(m, 0x5A, r.size() + 64); memcpy(m, r.data(), r.size());
                XML_Binary_Data_Ref D; D.type = ty; D.data = m; D.content = m + (var(ty) ? 4 : 0); D.size = r.size(); D.content_size = r.size() - (var(ty) ? 4 : 0);
                if (!e->attrData(id, D)) _exit(94);
            };
            for (; j < o.size() && o[j] != "/"; j++, i++) {
                std::string r = unhex(o[j].substr(2)); char kind = o[j][0];       // kind: i item, o other tag, k attribute of another name first, n without attribute
                BW_element *e = W.tag(kind == 'o' ? 2 : 1); E.push_back((char*)e - (char*)root); root->add(e);
                if (kind == 'k') at(e, 1, r); else if (kind != 'n') { if (i % 2) at(e, 1, unhex(o[3 + (i + 1) % (o.size() - 5)].substr(2))); at(e, 0, r); }
                V.push_back(Obj().s("k", std::string(1, kind)).raw("raw", bytes(r)).done());
            }
            k = unhex(o[j + 1]); int v = var(tk) ? 4 : 0;
            char *pk = area + 8192; memset(pk, 0x5A, k.size() + 64); memcpy(pk, k.data(), k.size());
            BW_element *f = root->findChildByParam(1, 0, tk, pk + v, k.size() - v);
            res = -1; if (f) { res = -2; for (size_t m = 0; m < E.size(); m++) if ((char*)f - (char*)root == E[m]) res = m; }
        }
        unlink(file.c_str());
        out.line(Obj().s("n", "fp").s("ty", o[1]).s("tk", o[2]).raw("v", jlist(V)).raw("k", bytes(k)).i("res", res + 1).done());
    }
}
int main(int argc, char **argv) {
    auto S = readScripts(argv[1]); out.open(argv[2]); quiet();
    for (auto &s : S) {
        pid_t c = fork();
        if (c == 0) {
            limits(120);
            area = (char*)mmap(0, PG + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(area + PG, 4096, PROT_NONE);
            out.line(Obj().s("n", "RESET").s("s", s.id).done());
            for (auto &o : s.ops) { out.flush(); step(o, argv[3]); }
            out.flush(); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { out.line(crashLine(st)); out.flush(); }
    }
    return 0;
}
