// Documents of the .xb format:  xb_driver SCRIPTS TRACE WORKDIR
//   doc STYLE TOK...   the document, converted by the packer and by the plain creator.
//                      TOK: n:DEPTH:NAME:TEXT an element, a:NAME:VALUE its attribute; names and texts are x and hex.
//                      STYLE selects one of the ways to write the same document as XML.
//   json HEX HEX2 TOK...  a JSON text, another way to write it or x, and the document it denotes, as above (none for a text
//                      that must be refused); json? HEX: a text that may be refused or not
//   tree               content of the packed document as the reader shows it
//   print              the document printed as XML, read by libxml2, and converted again
//   pack               content and addresses of the elements of the plain and of the packed document
//   dict NAME...       both dictionaries, lookups of all their names and of the given ones
//   walk u|p           all the traversals of the plain or packed document
//   many KIND N        a big document, counted
//   manyw KIND N       the same through a shared-memory document
//   xbw                the document converted to a shared-memory one, content of that, and of the .xb made of it
//   src I STYLE TOK... the document becomes the source I (0 or 1)
//   tgt MODE NAME...   a new shared-memory document. MODE 1: other names are registered first, 2: it is a transaction,
//                      4: names of source 1 are not imported. The names are keys.
//   cp I EL W          the path to the element EL of source I is copied (W 1: with the whole of the last one)
//   fin                the target converted to .xb
//   img p|u|HEX        the bytes of the packed or plain document or the given ones become the image, which is opened and read
//   mut CUT OFF:HEX... the image cut (-1: it is not) and with some bytes replaced is opened and read
#include "common.h"
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_xml_plugin.h>
#include <binary_xml/bin_write_plugin.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <set>
#include <algorithm>
using namespace vh;
using namespace pklib_xml;
static Out out;
static std::string wd;
static std::string unhex(const std::string &h) { std::string o; for (size_t i = 1; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return o; }
static std::string bytes(const void *p, long n) { std::vector<int> v; for (long i = 0; i < n; i++) v.push_back(((const unsigned char*)p)[i]); return jints(v); }
static std::string bytes(const std::string &s) { return bytes(s.data(), s.size()); }
static std::string bytes(const char *s) { return s ? bytes(s, strlen(s)) : bytes("", 0); }
static const char *nameOf(int t) { return t == XBT_UNKNOWN ? "UNKNOWN" : t == XBT_LAST ? "LAST" : t < 0 || t > XBT_LAST ? "?" : XML_BINARY_TYPE_NAMES[t]; }

struct Node { int d; std::string n; std::vector<std::pair<std::string, std::string>> a; std::string t; };
typedef std::vector<Node> Doc;
static Doc doc;

// ---- XML text
static std::string esc(const std::string &s, char q, unsigned style) { // q: quote of an attribute, 0 for text
    std::string o; unsigned r = style * 2654435761u;
    for (unsigned char c : s) {
        r = r * 1103515245u + 12345u; unsigned k = (r >> 16) & 7; char b[16];
        if (c == '\r' || (q && (c == '\n' || c == '\t'))) { snprintf(b, sizeof b, k & 1 ? "&#%d;" : "&#x%X;", c); o += b; }
        else if (c == '<') o += k & 1 ? "&lt;" : "&#60;"; else if (c == '&') o += k & 1 ? "&amp;" : "&#38;"; else if (c == '>') o += k & 1 ? "&gt;" : "&#x3e;";
        else if (q && c == (unsigned char)q) o += q == '"' ? "&quot;" : "&apos;";
        else if (c < 128 && (style & 8) && k == 0) { snprintf(b, sizeof b, "&#%d;", c); o += b; }
        else o += c;
    }
    return o;
}
static size_t put(std::string &o, const Doc &D, size_t i, unsigned st) {
    const Node &N = D[i]; size_t j = i + 1; bool kids = j < D.size() && D[j].d > N.d, ind = st & 1;
    auto tab = [&](int d) { if (ind) { o += '\n'; o.append(d, st & 2 ? '\t' : ' '); } };
    o += "<" + N.n;
    for (auto &a : N.a) { char q = (st >> 2) & 1 ? '\'' : '"'; o += ((st >> 4) & 1 ? "\n " : " ") + a.first + ((st >> 4) & 1 ? " = " : "=") + q + esc(a.second, q, st) + q; }
    std::string t;
    if (!N.t.empty()) {
        bool cd = ((st >> 5) & 1) && N.t.find('\r') == std::string::npos && N.t.find("]]>") == std::string::npos;
        t = cd ? "<![CDATA[" + N.t + "]]>" : esc(N.t, 0, st);
    }
    if (!kids && t.empty() && !((st >> 6) & 1)) { o += "/>"; return j; }
    o += ">";
    if ((st >> 7) & 1) o += "<!-- c & <x> -->";
    if (!kids) o += t;
    else {
        int nk = 0, at = (st >> 8) % 3; size_t k = j; while (k < D.size() && D[k].d > N.d) { nk += D[k].d == N.d + 1; k++; }
        int where = at == 0 ? 0 : at == 1 ? nk : (nk + 1) / 2, c = 0;   // the text stands before this child
        while (j < D.size() && D[j].d > N.d) {
            if (c++ == where) o += t; else tab(N.d + 1);
            if (((st >> 7) & 1) && c != where + 1) o += "<?pi c?>";
            j = put(o, D, j, st);
        }
        if (where >= nk) o += t; else tab(N.d);
    }
    o += "</" + N.n + ">";
    return j;
}
static std::string xml(const Doc &D, unsigned st) {
    std::string o;
    if ((st >> 10) & 1) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    if ((st >> 11) & 1) o += "<!-- head -->\n";
    put(o, D, 0, st);
    if ((st >> 11) & 1) o += "\n<!-- tail -->\n";
    return o;
}
static void save(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }

// ---- the reader
struct Rd {
    char name[512]; XB_reader *R; bool ok;
    Rd(const std::string &f) { strncpy(name, f.c_str(), 511); name[511] = 0; R = new XB_reader(name); R->setVerbosity(0); ok = R->Initialize() && R->getRoot(); }
    ~Rd() { R->Finalize(); delete R; }
    long off(XML_Item *X) { return X ? (char*)X - (char*)R->doc : 0; }
};
static std::string chunks(std::function<int(int&, char*, int)> f) { std::string s; char b[4097]; for (int o = 0;;) { int n = f(o, b, sizeof b); if (n <= 0) break; s += b; } return s; }
static std::string dat(const XML_Binary_Data_Ref &d, int &bad) {
    bool v = d.type == XBT_BLOB || d.type == XBT_HEX || d.type == XBT_BLOB_STRING;
    if (d.content != d.data + (v ? 4 : 0) || d.content_size != d.size - (v ? 4 : 0)) bad = 1;
    return bytes(d.data, d.size);
}
static std::string num(const int32_t *p) { return bytes(p ? std::to_string(*p) : std::string()); }
static std::string num8(const int64_t *p) { return bytes(p ? std::to_string(*p) : std::string()); }
static std::string tagName(Rd &r, int id) { return id == -1 ? "[0]" : bytes(r.R->getNodeName(id)); } // -1: no name
static void dump(Rd &r, XML_Item *X, int d, std::vector<std::string> &o, bool brief) {
    std::vector<std::string> A; int bad = 0;
    for (int i = 0; i < X->paramcount; i++) {
        XML_Param_Description *P = X->getParamByIndex(i); XML_Binary_Data_Ref D = P->getData(X); Obj b;
        b.i("id", P->name).raw("n", bytes(r.R->getParamName(P->name))).s("t", nameOf(P->type)).raw("r", D.type == XBT_NULL ? "[]" : dat(D, bad));
        if (!brief) {
            std::string s = P->type == XBT_NULL ? "" : chunks([&](int &o, char *p, int n) { return P->getStringChunk(X, o, p, n); }); const char *g = P->type == XBT_NULL ? "" : P->getString(X);
            if (!g || s != g) bad = 1;
            b.raw("s", bytes(s)).raw("gi", bytes(std::to_string(P->getInt(X)))).raw("gp", num(P->getIntPtr(X))).raw("g8", num8(P->getInt64Ptr(X)));
        }
        A.push_back(b.done());
    }
    XML_Binary_Data_Ref D = X->getData(); Obj b;
    b.i("d", d).i("id", X->name).raw("n", tagName(r, X->name)).s("t", nameOf(D.type)).raw("r", D.type == XBT_NULL ? "[]" : dat(D, bad)).i("off", r.off(X)).i("len", X->length);
    if (!brief) {
        std::string s = D.type == XBT_NULL ? "" : chunks([&](int &o, char *p, int n) { return X->getStringChunk(o, p, n); }); const char *g = D.type == XBT_NULL ? "" : X->getString();
        if (!g || s != g) bad = 1;
        b.raw("s", bytes(s)).raw("gi", bytes(std::to_string(X->getInt()))).raw("gp", num(X->getIntPtr())).raw("g8", num8(X->getInt64Ptr()));
    }
    b.raw("a", jlist(A)).i("bad", bad);
    o.push_back(b.done());
    for (int i = 0; i < X->childcount; i++) dump(r, X->getChildByIndex(i), d + 1, o, brief);
}
static std::string dump(const std::string &f, bool brief) {
    Rd r(f); std::vector<std::string> o; if (!r.ok) return "[]";
    dump(r, r.R->getRoot(), 0, o, brief); return jlist(o);
}
static bool convert(const std::string &src, const std::string &dst, bool pack) {
    unlink(dst.c_str());
    return pack ? Bin_xml_packer::Convert(src.c_str(), dst.c_str()) : Bin_xml_creator::Convert(src.c_str(), dst.c_str());
}
// ---- shared-memory documents
static bool toXbw(const std::string &src, const std::string &dst) {
    char d[512]; snprintf(d, sizeof d, "%s", dst.c_str());
    Bin_xml_creator X(src.c_str(), d, XBTARGET_XBW); return X.DoAll();
}
static std::string bwValue(BW_element *e) { // s, t, r
    XML_Binary_Type ty = (XML_Binary_Type)e->value_type; const char *v = (const char*)(e + 1), *s = XBT_ToString(ty, v); long n = ty == XBT_NULL ? 0 : ty == XBT_STRING ? strlen(v) + 1 : ty == XBT_BLOB || ty == XBT_HEX || ty == XBT_BLOB_STRING ? 4 + *(const int32_t*)v : XBT_Size2(ty, 0);
    return "\"t\":\"" + std::string(nameOf(ty)) + "\",\"r\":" + bytes(v, n) + ",\"s\":" + bytes(s);
}
static void bwDump(BW_plugin &W, BW_element *e, int d, std::vector<std::string> &o) {
    struct L { std::vector<BW_element*> v; } ch; std::vector<BW_element*> at; std::vector<std::string> A; int bad = 0; BW_pool *P = W.getPool();
    auto ring = [&](BW_element *f, std::vector<BW_element*> &v) { for (BW_element *x = f;;) { v.push_back(x); BW_element *y = W.BWE(x->next); if (!y || y->prev != x->offset || v.size() > 1000000) { bad = 1; break; } if (y == f) break; x = y; } };
    if (e->first_attribute) ring(W.BWE(e->first_attribute), at);
    W.ForAllChildren([](void *x, void *u) { ((L*)u)->v.push_back((BW_element*)x); }, e, &ch);
    if (e->first_child) { std::vector<BW_element*> k; ring(W.BWE(e->first_child), k); bad |= k != ch.v; }
    for (auto *a : at) { bad |= a->flags != BIN_WRITE_ATTR_FLAG; const char *n = P->getAttrName(a->identification); A.push_back("{\"id\":" + std::to_string(a->identification) + ",\"n\":" + bytes(n) + "," + bwValue(a) + "}"); }
    bad |= e->flags != BIN_WRITE_ELEMENT_FLAG;
    o.push_back("{\"off\":" + std::to_string(e->offset) + ",\"d\":" + std::to_string(d) + ",\"id\":" + std::to_string(e->identification) + ",\"n\":" + bytes(P->getTagName(e->identification)) + "," + bwValue(e) + ",\"a\":" + jlist(A) + ",\"bad\":" + std::to_string(bad) + "}");
    for (auto *c : ch.v) bwDump(W, c, d + 1, o);
}
static std::string bwSymbols(BW_pool *P, BW_symbol_table_16B &T) { std::vector<std::string> o; for (int i = 0; i <= T.max_id; i++) { auto *ty = T.getType(P, i); o.push_back(Obj().raw("n", bytes(T.getName(P, i))).s("t", ty ? nameOf(*ty) : "?").done()); } return jlist(o); }
// ---- copies
struct KeyRd : XB_reader { std::set<std::string> keys; using XB_reader::XB_reader; bool ParamIsKey(int p) const override { return keys.count(getParamName(p)) > 0; } };
static KeyRd *SR[2]; static BW_plugin *TW;
static std::string twDump() { std::vector<std::string> t; BW_element *r = (BW_element*)TW->getRoot(); if (r) bwDump(*TW, r, 0, t); return jlist(t); }
static bool route(XML_Item *X, int &n, std::vector<XML_Item*> &P) { P.push_back(X); if (--n == 0) return true; for (int i = 0; i < X->childcount; i++) if (route(X->getChildByIndex(i), n, P)) return true; P.pop_back(); return false; }
static BW_element *copyPath(bool whole, XB_reader &R, std::vector<XML_Item*> P) {
    XML_Item *root = P[0]; if (P.size() > 15) _exit(93); P.resize(16, nullptr); XML_Item **p = P.data();
    return whole ? TW->CopyPath(R, root, p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15])
                 : TW->CopyPathOnly(R, root, p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]);
}
// ---- libxml2's view
static void view(xmlNode *X, int d, std::vector<std::string> &o) {
    std::vector<std::string> A; std::string t;
    for (xmlAttr *a = X->properties; a; a = a->next) { xmlChar *v = xmlNodeGetContent((xmlNode*)a); A.push_back("[" + bytes((const char*)a->name) + "," + bytes((const char*)v) + "]"); xmlFree(v); }
    for (xmlNode *c = X->children; c; c = c->next) if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) t += (const char*)c->content;
    size_t i = t.find_first_not_of(" \t\r\n"); t = i == std::string::npos ? "" : t.substr(i);
    o.push_back(Obj().i("d", d).raw("n", bytes((const char*)X->name)).raw("a", jlist(A)).raw("t", bytes(t)).done());
    for (xmlNode *c = X->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) view(c, d + 1, o);
}
struct Visit { Rd *r; std::vector<std::string> o; };
static void onItem(XML_Item *X, void *u, int deep) { Visit *v = (Visit*)u; v->o.push_back(jints(std::vector<long>{v->r->off(X), deep})); }
static void onItemA(XML_Item *X, void *u, int deep, XML_Item **root) {
    Visit *v = (Visit*)u; std::vector<long> k{v->r->off(X), deep}; for (int i = 0; i <= deep; i++) k.push_back(v->r->off(root[i])); v->o.push_back(jints(k));
}
static void byIndex(Rd &r, XML_Item *X, int d, std::vector<std::string> &o, int &bad) {
    o.push_back(jints(std::vector<long>{r.off(X), d, X->name, X->childcount, X->paramcount}));
    for (int i : {-1, -1000000, X->childcount, X->childcount + 1, 1 << 20}) if (i < 0 || i >= X->childcount) bad += X->getChildByIndex(i) != nullptr;
    for (int i : {-1, -1000000, (int)X->paramcount, X->paramcount + 1, 1 << 20}) if (i < 0 || i >= X->paramcount) bad += X->getParamByIndex(i) != nullptr;
    for (int i = 0; i < X->childcount; i++) byIndex(r, X->getChildByIndex(i), d + 1, o, bad);
}
static void byNext(Rd &r, XML_Item *X, int d, std::vector<std::string> &o) {
    o.push_back(jints(std::vector<long>{r.off(X), d})); int i = 0;
    for (int n = 0; n < 100000; n++) { XML_Item *c = X->getNextChild(*r.R, i); if (!c) break; byNext(r, c, d + 1, o); }
}
static void byName(Rd &r, XML_Item *X, std::vector<std::string> &o) {
    std::vector<long> c, p;
    for (int t = 0; t < r.R->tag_symbols.count; t++) c.push_back(r.off(X->getChildByName((XML_Tag_Names)t)));
    for (int t = 0; t < r.R->param_symbols.count; t++) { XML_Param_Description *P = X->getParamByName((XML_Param_Names)t); long k = -1; for (int i = 0; i < X->paramcount; i++) if (P == X->getParamByIndex(i)) k = i; if (P && k < 0) k = -2; p.push_back(k); }
    o.push_back("[" + jints(c) + "," + jints(p) + "]");
    for (int i = 0; i < X->childcount; i++) byName(r, X->getChildByIndex(i), o);
}
static std::string symbols(const _XB_symbol_table &T) { std::vector<std::string> o; for (int i = 0; i < T.count; i++) o.push_back(Obj().raw("n", bytes(T.getSymbol(i))).s("t", nameOf(T.getType(i))).done()); return jlist(o); }
static std::string jdoc(bool trim = true) {
    std::vector<std::string> o;
    for (auto &n : doc) { std::vector<std::string> A; for (auto &a : n.a) A.push_back(Obj().raw("n", bytes(a.first)).raw("v", bytes(a.second)).s("dt", nameOf(XBT_Detect(a.second.c_str()))).done());
        size_t i = n.t.find_first_not_of(" \t\r\n"); std::string t = !trim ? n.t : i == std::string::npos ? "" : n.t.substr(i);
        o.push_back(Obj().i("d", n.d).raw("n", bytes(n.n)).raw("a", jlist(A)).raw("t", bytes(n.t)).s("dt", t.empty() ? "NULL" : nameOf(XBT_Detect(t.c_str()))).done()); }
    return jlist(o);
}
static void many(const std::string &kind, int n, bool viaXbw) {
    std::string x; auto nm = [](int i) { char b[16]; snprintf(b, sizeof b, "t%d", i); return std::string(b); };
    if (kind == "tags") { x = "<r>"; for (int i = 0; i < n; i++) x += "<" + nm(i * 7919 % n) + "/>"; x += "</r>"; }                 // n names, all of them different when n is not divisible by 7919
    else if (kind == "attrs") { x = "<r>"; for (int i = 0; i < n; i++) x += "<e " + nm(i * 7919 % n) + "='1'/>"; x += "</r>"; }
    else if (kind == "wide") { x = "<r>"; for (int i = 0; i < n; i++) x += "<e/>"; x += "</r>"; }
    else if (kind == "ints") { x = "<r>"; for (int i = 0; i < n; i++) x += "<e>" + std::to_string(i % 10) + "</e>"; x += "</r>"; }
    else if (kind == "longs") { x = "<r>"; for (int i = 0; i < n; i++) x += "<e>" + std::to_string(5000000000LL + i) + "</e>"; x += "</r>"; }
    else if (kind == "one") { x = "<r"; for (int i = 0; i < n; i++) x += " " + nm(i) + "=''"; x += "/>"; }
    else if (kind == "deep") { for (int i = 0; i < n; i++) x += "<e>"; for (int i = 0; i < n; i++) x += "</e>"; x = "<r>" + x + "</r>"; }
    std::string f = wd + "/many.xml", g = wd + "/many.xb"; save(f, x); std::string w = wd + "/many.xbw"; unlink(w.c_str()); bool rc = viaXbw ? toXbw(f, w) && convert(w, g, true) : convert(f, g, true); unlink(w.c_str());
    long els = -1, tags = -1, pars = -1, found = 0, order = 0, vals = 0;
    if (rc) {
        Rd r(g);
        if (r.ok) {
            els = 0; XML_Item *root = r.R->getRoot();
            std::function<void(XML_Item*, int)> go = [&](XML_Item *X, int) { els++; if (kind == "ints" && X != root) vals += X->getInt() == (els - 2) % 10; if (kind == "longs" && X != root) { const int64_t *p = X->getInt64Ptr(); vals += p && *p == 5000000000LL + (els - 2); }
                if (kind == "tags" && X != root) vals += r.R->getNodeName(X->name) == nm((els - 2) * 7919 % n); if (kind == "attrs" && X != root) { auto *P = X->getParamByIndex(0); vals += P && r.R->getParamName(P->name) == nm((els - 2) * 7919 % n); }
                if (kind == "one") for (int i = 0; i < X->paramcount; i++) vals += r.R->getParamName(X->getParamByIndex(i)->name) == nm(i);
                for (int i = 0; i < X->childcount; i++) go(X->getChildByIndex(i), 0); };
            go(root, 0);
            tags = r.R->tag_symbols.count; pars = r.R->param_symbols.count;
            for (int i = 0; i < tags; i++) { found += r.R->getNodeID(r.R->getNodeName(i)) == i; order += i + 1 < tags && strcmp(r.R->getNodeName(i), r.R->getNodeName(i + 1)) < 0; }
            for (int i = 0; i < pars; i++) { found += r.R->getParamID(r.R->getParamName(i)) == i; order += i + 1 < pars && strcmp(r.R->getParamName(i), r.R->getParamName(i + 1)) < 0; }
        }
    }
    unlink(f.c_str()); unlink(g.c_str());
    out.line(Obj().s("n", "many").s("kind", kind).i("num", n).i("rc", rc).i("els", els).i("tags", tags).i("pars", pars).i("found", found).i("order", order).i("vals", vals).done());
}
static void readDoc(const std::vector<std::string> &o, size_t from) {
    doc.clear();
    for (size_t i = from; i < o.size(); i++) {
        std::vector<std::string> f; std::istringstream is(o[i]); std::string w; while (std::getline(is, w, ':')) f.push_back(w);
        if (f[0] == "n") doc.push_back(Node{atoi(f[1].c_str()), unhex(f[2]), {}, unhex(f[3])}); else doc.back().a.push_back({unhex(f[1]), unhex(f[2])});
    }
}
// ---- images: the file is mapped as a block of exactly its size
#ifdef VERIF_MMAP
static std::set<void*> maps;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
#undef mmap
#undef munmap
extern "C" void *mmap(void *, size_t, int, int, int, off_t) noexcept;
extern "C" int munmap(void *, size_t) noexcept;
extern "C" void *verif_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) noexcept {
    if (prot & PROT_WRITE) return mmap(a, n, prot, flags, fd, o);
    void *p = malloc(n); if (pread(fd, p, n, o) != (ssize_t)n) { free(p); return MAP_FAILED; }
    maps.insert(p); return p;
}
extern "C" int verif_munmap(void *p, size_t n) noexcept { if (maps.erase(p)) { free(p); return 0; } return munmap(p, n); }
#endif
static volatile unsigned touched;
static void touch(const void *p, long n) { if (p) for (long i = 0; i < n; i++) touched = touched + ((const unsigned char*)p)[i]; }
static void touch(const char *s) { if (s) touch(s, strlen(s)); }
const int BIG = 2000;
static bool items(Rd &r, XML_Item *X, int d, std::vector<std::string> &o, bool use) {
    if ((int)o.size() > BIG) return false;
    std::vector<std::string> A; int bad = 0;
    for (int i = 0; i < X->paramcount; i++) {
        XML_Param_Description *P = X->getParamByIndex(i); XML_Binary_Data_Ref D = P->getData(X);
        A.push_back("[" + std::to_string(P->name) + ",\"" + nameOf(P->type) + "\"," + (D.type == XBT_NULL ? "[]" : dat(D, bad)) + "]");
        if (use) { P->getInt(X); touch(P->getIntPtr(X), 4); touch(P->getInt64Ptr(X), 8); touch(r.R->getParamName(P->name)); if (P->type != XBT_NULL) { touch(P->getString(X)); chunks([&](int &o, char *p, int n) { return P->getStringChunk(X, o, p, n); }); } }
    }
    XML_Binary_Data_Ref D = X->getData();
    o.push_back(Obj().i("o", r.off(X)).i("d", d).i("id", X->name).i("len", X->length).i("k", X->childcount).s("t", nameOf(D.type)).raw("r", D.type == XBT_NULL ? "[]" : dat(D, bad)).raw("a", jlist(A)).i("bad", bad).done());
    if (use) {
        X->getInt(); touch(X->getIntPtr(), 4); touch(X->getInt64Ptr(), 8); int32_t n = 0; const void *b = X->getBinary(&n); if (b) touch(b, n); touch(r.R->getNodeName(X->name));
        if (D.type != XBT_NULL) { touch(X->getString()); chunks([&](int &o, char *p, int n) { return X->getStringChunk(o, p, n); }); }
    }
    for (int i = 0; i < X->childcount; i++) if (!items(r, X->getChildByIndex(i), d + 1, o, use)) return false;
    return true;
}
static bool next(Rd &r, XML_Item *X, int d, std::vector<std::string> &o) {
    if ((int)o.size() > BIG) return false;
    o.push_back(jints(std::vector<long>{r.off(X), d})); int i = 0;
    for (;;) { XML_Item *c = X->getNextChild(*r.R, i); if (!c) return true; if (!next(r, c, d + 1, o)) return false; }
}
static std::string base;
static void none(XML_Item *X, void *u, int) { ++*(int*)u; }
static void image(Obj &ev, const std::string &b) {
    std::string f = wd + "/i.xb"; save(f, b);
    Rd r(f); ev.i("ok", r.ok); if (!r.ok) return;
    std::vector<std::string> o, nx, tg, pr; bool small = items(r, r.R->doc, 0, o, true) && next(r, r.R->getRoot(), 0, nx);
    if (!small) { o.clear(); nx.clear(); }
    for (int i = 0; i < r.R->tag_symbols.count; i++) tg.push_back(Obj().raw("n", bytes(r.R->getNodeName(i))).s("t", nameOf(r.R->tag_symbols.getType(i))).i("id", r.R->getNodeID(r.R->getNodeName(i))).done());
    for (int i = 0; i < r.R->param_symbols.count; i++) pr.push_back(Obj().raw("n", bytes(r.R->getParamName(i))).s("t", nameOf(r.R->param_symbols.getType(i))).i("id", r.R->getParamID(r.R->getParamName(i))).done());
    int n = 0; if (small) { std::ostringstream os; os << *r.R; r.R->getRoot()->ForAllChildrenRecursively(none, &n, 0); r.R->getRoot()->ForAllChildrenRecursively_PostOrder(none, &n, 0); }
    ev.i("big", !small).i("root", r.off(r.R->getRoot())).raw("items", jlist(o)).raw("nx", jlist(nx)).raw("tags", jlist(tg)).raw("pars", jlist(pr)).i("chk", r.R->doc->Check(r.R, true));
}
static void step(std::vector<std::string> &o) {
    std::string P = wd + "/p.xb", U = wd + "/u.xb", S = wd + "/s.xml"; static std::string src;
    if (o[0] == "doc") {
        unsigned st = atoi(o[1].c_str()); readDoc(o, 2);
        save(S, xml(doc, st)); src = S; bool rp = convert(S, P, true), ru = convert(S, U, false);
        out.line(Obj().s("n", "doc").raw("doc", jdoc()).i("rp", rp).i("ru", ru).done());
    } else if (o[0] == "json" || o[0] == "json?") {
        std::string J = wd + "/j.json", t = unhex(o[1]), u = o.size() > 2 ? unhex(o[2]) : ""; readDoc(o, 3); int same = 0;
        if (!u.empty()) { save(J, u); convert(J, P, true); std::string a = dump(P, false); save(J, t); convert(J, P, true); same = a == dump(P, false); }
        save(J, t); src = J; int rp = convert(J, P, true), ru = convert(J, U, false);
        out.line(Obj().s("n", "json").raw("t", bytes(t)).raw("u", bytes(u)).raw("doc", jdoc(false)).i("rp", o[0] == "json?" ? -1 : rp).i("ru", ru).i("same", same).done());
    } else if (o[0] == "tree") {
        Rd r(P); out.line(Obj().s("n", "tree").i("ok", r.ok).raw("tree", dump(P, false)).done());
    } else if (o[0] == "print") {
        std::ostringstream os; { Rd r(P); if (r.ok) os << *r.R; }
        std::string x = os.str(), S2 = wd + "/s2.xml", P2 = wd + "/p2.xb"; save(S2, x); std::vector<std::string> v; int wf = 0;
        xmlDoc *d = xmlReadMemory(x.data(), x.size(), "p.xml", nullptr, XML_PARSE_NOCDATA | XML_PARSE_NONET);
        if (d) { wf = 1; view(xmlDocGetRootElement(d), 0, v); xmlFreeDoc(d); }
        bool rc = wf && convert(S2, P2, true);
        out.line(Obj().s("n", "print").i("wf", wf).raw("view", jlist(v)).i("rc", rc).raw("again", rc ? dump(P2, false) : "[]").done());
        unlink(S2.c_str()); unlink(P2.c_str());
    } else if (o[0] == "pack") {
        out.line(Obj().s("n", "pack").raw("u", dump(U, true)).raw("p", dump(P, true)).raw("ps", dump(P, false)).raw("us", dump(U, false)).done());
    } else if (o[0] == "dict") {
        Rd r(P); std::vector<std::string> pr; std::set<std::string> names; if (!r.ok) { out.line(Obj().s("n", "dict").i("ok", 0).done()); return; }
        for (int i = 0; i < r.R->tag_symbols.count; i++) names.insert(r.R->getNodeName(i));
        for (int i = 0; i < r.R->param_symbols.count; i++) names.insert(r.R->getParamName(i));
        for (size_t i = 1; i < o.size(); i++) names.insert(unhex(o[i]));
        for (auto &n : names) pr.push_back(Obj().raw("n", bytes(n)).i("tag", r.R->getNodeID(n.c_str())).i("par", r.R->getParamID(n.c_str())).done());
        int bad = 0; std::string oor = "__out_of_range__";
        for (int k : {0, 1, 1000, 30000}) { bad += r.R->getNodeName(r.R->tag_symbols.count + k) != oor; bad += r.R->getParamName(r.R->param_symbols.count + k) != oor; }
        out.line(Obj().s("n", "dict").i("ok", 1).raw("tags", symbols(r.R->tag_symbols)).raw("pars", symbols(r.R->param_symbols)).raw("probe", jlist(pr)).i("bad", bad).raw("tree", dump(P, true)).done());
    } else if (o[0] == "walk") {
        Rd r(o[1] == "u" ? U : P); if (!r.ok) { out.line(Obj().s("n", "walk").i("ok", 0).done()); return; }
        XML_Item *root = r.R->getRoot(); std::vector<std::string> ix, nx, bn; int bad = 0; byIndex(r, root, 0, ix, bad); byNext(r, root, 0, nx); byName(r, root, bn);
        Visit pre{&r}, post{&r}, pa{&r}, pn{&r}; root->ForAllChildrenRecursively(onItem, &pre, 0); root->ForAllChildrenRecursively_PostOrder(onItem, &post, 0);
        static XML_Item_Array A; memset(A, 0, sizeof A); root->ForAllChildrenRecursively_PostOrderA(onItemA, &pa, 0, A);
        bad += root->getChildByName((XML_Tag_Names)r.R->tag_symbols.count) != nullptr; bad += root->getParamByName((XML_Param_Names)r.R->param_symbols.count) != nullptr;
        std::vector<std::string> T, Q; for (int i = 0; i < r.R->tag_symbols.count; i++) T.push_back(bytes(r.R->getNodeName(i))); for (int i = 0; i < r.R->param_symbols.count; i++) Q.push_back(bytes(r.R->getParamName(i)));
        out.line(Obj().s("n", "walk").i("ok", 1).s("w", o[1]).raw("tags", jlist(T)).raw("pars", jlist(Q)).raw("ix", jlist(ix)).raw("nx", jlist(nx)).raw("pre", jlist(pre.o)).raw("post", jlist(post.o)).raw("pa", jlist(pa.o)).raw("bn", jlist(bn)).i("bad", bad).done());
    } else if (o[0] == "img") {
        if (o[1][0] == 'x') base = unhex(o[1]); else { std::ifstream f(o[1] == "u" ? U : P, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); base = ss.str(); }
        Obj ev; ev.s("n", "img").s("w", o[1][0] == 'x' ? "x" : o[1]).raw("b", bytes(base)); image(ev, base); out.line(ev.done());
    } else if (o[0] == "mut") {
        long n = base.size(), cut = atol(o[1].c_str()); if (cut < 0 || cut > n) cut = n; std::string b = base; std::vector<std::string> pt;
        for (size_t i = 2; i < o.size(); i++) { long at = atol(o[i].c_str()); std::string v = unhex("x" + o[i].substr(o[i].find(':') + 1)); for (size_t k = 0; k < v.size(); k++) { long q = (at + k) % n; b[q] = v[k]; pt.push_back(jints(std::vector<long>{q, (unsigned char)v[k]})); } }
        Obj ev; ev.s("n", "mut").i("cut", cut).raw("p", jlist(pt)); image(ev, b.substr(0, cut)); out.line(ev.done());
    } else if (o[0] == "many" || o[0] == "manyw") many(o[1], atoi(o[2].c_str()), o[0] == "manyw");
    else if (o[0] == "src") {
        int i = atoi(o[1].c_str()); readDoc(o, 3); std::string f = wd + "/src" + o[1] + ".xb"; if (SR[i]) { SR[i]->Finalize(); delete SR[i]; SR[i] = nullptr; }
        save(S, xml(doc, atoi(o[2].c_str()))); bool ok = convert(S, f, atoi(o[2].c_str()) & 1); char *nm = strdup(f.c_str()); SR[i] = new KeyRd(nm); SR[i]->setVerbosity(0); ok = ok && SR[i]->Initialize() && SR[i]->getRoot();
        out.line(Obj().s("n", "src").i("i", i).i("ok", ok).raw("tree", ok ? dump(f, true) : "[]").done());
    } else if (o[0] == "tgt") {
        int m = atoi(o[1].c_str()); delete TW; TW = nullptr; std::string B = wd + "/t.xbw"; unlink(B.c_str()); TW = new BW_plugin(B.c_str(), nullptr, 0x100000, BIN_WRITE_CFG_ALWAYS_CREATE_NEW); bool ok = TW->Initialize(); std::vector<std::string> K;
        for (auto *r : SR) if (r) { r->keys.clear(); for (size_t i = 2; i < o.size(); i++) r->keys.insert(unhex(o[i])); }
        for (size_t i = 2; i < o.size(); i++) K.push_back(bytes(unhex(o[i])));
        if (m & 1) { TW->registerTag("zz", XBT_NULL); TW->registerParam("zz", XBT_STRING); }
        for (int i = 0; i < 2; i++) if (SR[i] && !(i == 1 && (m & 4))) TW->importTags(SR[i]);
        for (int i = 0; i < 2; i++) if (SR[i] && !(i == 1 && (m & 4))) TW->importParams(SR[i]);
        ok = ok && TW->allRegistered(); if (m & 2) TW->setRoot(TW->tag(XTNR_TRANSACTION));
        out.line(Obj().s("n", "tgt").i("ok", ok).raw("keys", jlist(K)).i("base", (m & 2) != 0).raw("tags", bwSymbols(TW->getPool(), TW->getPool()->tags)).raw("pars", bwSymbols(TW->getPool(), TW->getPool()->params)).raw("tree", twDump()).done());
    } else if (o[0] == "cp") {
        int i = atoi(o[1].c_str()), el = atoi(o[2].c_str()), w = atoi(o[3].c_str()), n = el; std::vector<XML_Item*> Q; if (!route(SR[i]->getRoot(), n, Q)) _exit(92);
        BW_element *e = copyPath(w, *SR[i], Q);
        out.line(Obj().s("n", "cp").i("i", i).i("el", el).i("w", w).i("rc", e ? e->offset : 0).raw("tree", twDump()).done());
    } else if (o[0] == "fin") {
        std::string B = wd + "/t.xbw", P2 = wd + "/t.xb"; delete TW; TW = nullptr; bool rc = convert(B, P2, true);
        out.line(Obj().s("n", "fin").i("rc", rc).raw("tree", rc ? dump(P2, true) : "[]").done());
    }
    else if (o[0] == "xbw") {
        static bool again; // the target holds the previous document
        std::string B = wd + "/w.xbw", P2 = wd + "/w.xb"; if (!again) unlink(B.c_str()); again = true; bool rc = toXbw(src, B), ok = false; Obj ev; ev.s("n", "xbw").i("rc", rc);
        if (rc) {
            { BW_plugin W(B.c_str(), nullptr, 0x40000, 0); ok = W.Initialize() && W.getRoot(); std::vector<std::string> t; if (ok) { bwDump(W, (BW_element*)W.getRoot(), 0, t); ev.raw("tags", bwSymbols(W.getPool(), W.getPool()->tags)).raw("pars", bwSymbols(W.getPool(), W.getPool()->params)).raw("tree", jlist(t)); } }
            bool cp = ok && convert(B, P2, true); ev.i("cp", cp).raw("p", cp ? dump(P2, false) : "[]"); bool cu = ok && convert(B, P2, false); ev.i("cu", cu).raw("u", cu ? dump(P2, false) : "[]");
        }
        out.line(ev.i("ok", ok).done()); unlink(P2.c_str());
    }
}
int main(int argc, char **argv) {
    auto S = readScripts(argv[1]); out.open(argv[2]); wd = "."; if (chdir(argv[3])) return 2; quiet();
    for (auto &s : S) {
        pid_t c = fork();
        if (c == 0) {
            limits(120);
            out.line(Obj().s("n", "RESET").s("s", s.id).done());
            for (auto &o : s.ops) { out.flush(); step(o); }
            out.flush(); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { out.line(crashLine(st)); out.flush(); }
    }
    return 0;
}
