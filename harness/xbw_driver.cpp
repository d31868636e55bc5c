// Executes histories of the shared-memory document API (Xbw.tla) on the real library.
//   xbw_driver SCRIPTS TRACE WORKDIR
// One JSON line per operation: name, arguments, result, allocator position, and (for operations marked "!") the
// observed state of every open document.
#include "common.h"
#include <binary_xml/bin_write_plugin.h>
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_packer.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <sstream>
#include <set>
using namespace pklib_xml;
using namespace vh;

static const int NSLOT = 40, NFILE = 40, MAXH = 6000;
struct Shared {                      // survives a kill of the executing process
    volatile int idx; volatile int killed; volatile int done;
    int nh[NFILE]; int off[NFILE][MAXH];
    int named[NFILE]; int map[NFILE][MAXH];   // handles as the script numbers them ("=N" after a call), 0: refused
} *SH;
static Out out; static std::string workdir; static const Script *cur;
static BW_plugin *W[NSLOT]; static int fileOf[NSLOT];

static std::string path(int f) { return workdir + "/f" + std::to_string(f) + ".xbw"; }
static const char *tname(int t) {
    static const char *N[] = {"NULL","VARIANT","STRING","BLOB","INT32","INT64","FLOAT","DOUBLE","HEX","GUID","SHA1","UNIX_TIME","IPv4","IPv6","UNKNOWN","UINT64","UNIX_TIME64_MSEC","UINT32","UNIX_DATE","INT32_DECI","INT32_CENTI","INT32_MILI","INT32_MICRO","INT32_NANO","BLOB_STRING"};
    return t >= 0 && t < 25 ? N[t] : "BAD";
}
static XML_Binary_Type tcode(const std::string &s) { for (int i = 0; i < 25; i++) if (s == tname(i)) return (XML_Binary_Type)i; fprintf(stderr, "type %s\n", s.c_str()); _exit(96); }

static int offOf(int p, const BW_element *e) { return e ? (int)((const char*)e - (const char*)W[p]->getPool()) : 0; }
static int hOf(int p, int off) { if (off == 0) return 0; int f = fileOf[p]; for (int i = SH->nh[f]; i >= 1; i--) if (SH->off[f][i] == off) return i; return -1; }
static BW_element *el(int p, int h) { if (h <= 0) return nullptr; return W[p]->BWE(SH->off[fileOf[p]][h]); }
static int newH(int p, const BW_element *e) { int f = fileOf[p]; int h = ++SH->nh[f]; SH->off[f][h] = offOf(p, e); return h; }
static int hOrNew(int p, const BW_element *e) { if (!e) return 0; int h = hOf(p, offOf(p, e)); return h > 0 ? h : newH(p, e); }

// value argument: i:<int> (width decided by the function), s:<pct string>, b:<len>:<seed> (bytes), x:<hex>
struct Val { std::string bytes; long long num = 0; double dbl = 0; bool null = false; };
static Val val(const std::string &a) {
    Val v;
    if (a == "null") { v.null = true; return v; }
    char k = a[0]; std::string r = a.substr(2);
    if (k == 'i') v.num = strtoll(r.c_str(), 0, 10);
    else if (k == 'u') v.num = (long long)strtoull(r.c_str(), 0, 10);
    else if (k == 'd') v.dbl = strtod(r.c_str(), 0);
    else if (k == 's') v.bytes = unpct(r);
    else if (k == 'x') { for (size_t i = 0; i + 1 < r.size(); i += 2) v.bytes += (char)strtol(r.substr(i,2).c_str(), 0, 16); }
    else if (k == 'b' || k == 't') { // t: text of given length
        int n = atoi(r.c_str()); unsigned s = atoi(r.substr(r.find(':')+1).c_str()) * 2654435761u + 1;
        for (int i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; v.bytes += k == 't' ? (char)('a' + (s >> 24) % 26) : (char)(s >> 24); }
    }
    return v;
}
template<class T> static std::string c4(T v) { return canon(&v, sizeof v); }

static std::string elemValue(BW_element *e) {
    XML_Binary_Data_Ref d = e->getData();
    if (d.type == XBT_STRING || d.type == XBT_BLOB_STRING) { char *s = e->getStr(); return s ? canon(s, strlen(s)) : "null"; }
    return canon(d.content, d.content_size);
}
static std::string obs1(int p) {
    if (!W[p]) return "{\"open\":0}";
    BW_plugin *w = W[p]; BW_pool *P = w->getPool();
    Obj o; o.i("open", 1).i("f", fileOf[p]);
    struct stat st; fstat(w->getFd(), &st);
    o.i("al", P->allocator).i("lim", P->allocator_limit).i("fs", P->file_size).i("ms", P->mmap_size).i("st", st.st_size);
    o.i("root", hOf(p, w->getRoot() ? offOf(p, (BW_element*)w->getRoot()) : 0));
    // dictionaries: both directions
    for (int t = 0; t < 2; t++) {
        BW_symbol_table_16B &T = t == 0 ? P->tags : P->params;
        std::vector<std::string> L; bool inv = true, idx = true;
        for (int i = 0; i <= T.max_id; i++) {
            const char *n = T.getName(P, i); XML_Binary_Type_Stored *ty = T.getType(P, i);
            L.push_back("[" + jstr(n ? n : "?null") + "," + jstr(ty ? tname(*ty) : "?") + "]");
            BW_offset_t of = 0; XML_Binary_Type tt = XBT_UNKNOWN;
            int id = n ? T.getByName(P, n, &of, &tt) : -1;
            if (id != i || !ty || tt != *ty || of <= 0) inv = false;
            if (T.index != 0) {
                const char *n2 = t == 0 ? P->getTagName(i) : P->getAttrName(i);
                XML_Binary_Type t2 = t == 0 ? P->getTagType(i) : P->getAttrType(i);
                XML_Binary_Type t3 = XBT_UNKNOWN;
                const char *n3 = w->getSymbol(t == 0 ? SYMBOL_TABLE_NODES : SYMBOL_TABLE_PARAMS, i, t3);
                if (!n || !n2 || strcmp(n, n2) || !ty || t2 != *ty) idx = false;
                if (t2 != XBT_UNKNOWN && (!n || !n3 || strcmp(n, n3) || t3 != t2)) idx = false;
            }
        }
        if (T.getByName(P, "no-such-name", nullptr, nullptr) != -1) inv = false;
        if (w->getSymbolCount(t == 0 ? SYMBOL_TABLE_NODES : SYMBOL_TABLE_PARAMS) != T.max_id + 1) idx = false;
        o.raw(t == 0 ? "T" : "P", jlist(L)).i(t == 0 ? "Tinv" : "Pinv", inv).i(t == 0 ? "Tidx" : "Pidx", idx);
        o.i(t == 0 ? "Tready" : "Pready", T.index != 0);
        int sz = T.names_offset && T.max_id >= 0 ? T.getNamesSize(P) : 0;
        o.raw(t == 0 ? "Tx" : "Px", jints(std::vector<int>{T.max_id >= 0 ? T.names_offset : 0, sz, T.index, T.index ? 4 * (T.max_id + 1) : 0}));
    }
    std::vector<std::string> E; int f = fileOf[p];
    for (int h = 1; h <= SH->nh[f]; h++) {
        BW_element *e = el(p, h); std::vector<int> ch, rc, at, ra, cc;
        if (!e) { E.push_back("{\"bad\":1}"); continue; }
        BW_offset_t i = 0; int n = 0;
        for (BW_element *c = e->NextChild(i); c && n++ < MAXH; c = e->NextChild(i)) ch.push_back(hOf(p, offOf(p, c)));
        i = 0; n = 0;
        for (BW_element *c = e->PrevChild(i); c && n++ < MAXH; c = e->PrevChild(i)) rc.push_back(hOf(p, offOf(p, c)));
        struct CC { std::vector<int> *v; int p; } cx{&cc, p};
        if (n < MAXH) w->ForAllChildren([](void *x, void *u) { CC *c = (CC*)u; c->v->push_back(hOf(c->p, offOf(c->p, (BW_element*)x))); }, e, &cx);
        CC ax{&at, p}; 
        if (e->first_attribute) { // guard against endless rings
            n = 0; BW_element *a = w->BWE(e->first_attribute); bool okr = true;
            while (a && a->next != e->first_attribute) { if (n++ > MAXH) { okr = false; break; } a = w->BWE(a->next); }
            if (okr) w->ForAllBinParams([](const char *, int, XML_Binary_Type, const char *v, void *, void *u) { CC *c = (CC*)u; c->v->push_back(hOf(c->p, (int)(v - (const char*)W[c->p]->getPool()) - (int)sizeof(BW_element))); }, e, &ax);
            else at.push_back(-9);
        }
        XML_Binary_Data_Ref d = e->getData();
        E.push_back(Obj().i("off", SH->off[f][h]).i("sz", (int)sizeof(BW_element) + d.size).s("k", (e->flags & BIN_WRITE_ELEMENT_FLAG) ? "t" : "a").i("id", e->identification)
            .s("t", tname(e->value_type)).s("v", elemValue(e)).i("nx", hOf(p, e->next)).i("pv", hOf(p, e->prev))
            .raw("ch", jints(ch)).raw("rc", jints(rc)).raw("cc", jints(cc)).raw("at", jints(at)).done());
    }
    o.raw("E", jlist(E));
    return o.done();
}
static std::string obsAll() { std::vector<std::string> L; int top = NSLOT; while (top > 0 && !W[top-1]) top--; for (int p = 0; p < top; p++) L.push_back(obs1(p)); return jlist(L); }

static std::string ptr4(void *p, int n) { return p ? canon(p, n) : "-"; }
static std::string probe(int p, int h) {
    BW_element *e = el(p, h); BW_plugin *w = W[p]; BW_pool *P = w->getPool(); Obj o;
    o.s("i32", ptr4(e->getInt32(), 4)).s("f", ptr4(e->getFloat(), 4)).s("tm", ptr4(e->getTime(), 4)).s("i64", ptr4(e->getInt64(), 8));
    o.s("u64", ptr4(e->getUInt64(), 8)).s("guid", ptr4(e->getGUID(), 16));
    char *s = e->getStr(); o.s("str", s ? canon(s, strlen(s)) : "-");
    std::vector<int> tg, fc, ag, fa; std::vector<std::string> ti, ts, ai;
    for (int id = 0; id <= P->tags.max_id; id++) {
        BW_element *x = e->tagGet(id); tg.push_back(hOf(p, offOf(p, x))); x = e->findChildByTag(id); fc.push_back(hOf(p, offOf(p, x)));
        ti.push_back(ptr4(e->tagGetInt32(id), 4)); char *q = e->tagGetStr(id); ts.push_back(q ? canon(q, strlen(q)) : "-");
    }
    for (int id = 0; id <= P->params.max_id; id++) {
        BW_element *x = e->attrGet(id); ag.push_back(hOf(p, offOf(p, x))); x = e->findAttr(id); fa.push_back(hOf(p, offOf(p, x)));
        ai.push_back(ptr4(e->findAttrInt32(id), 4));
    }
    o.raw("tg", jints(tg)).raw("fc", jints(fc)).raw("ag", jints(ag)).raw("fa", jints(fa)).raw("ti", jstrs(ti)).raw("ts", jstrs(ts)).raw("ai", jstrs(ai));
    struct RR { std::vector<std::string> L; int p; } r; r.p = p;
    w->ForAllChildrenRecursively([](void *x, void *u, int deep) { RR *r = (RR*)u; if (r->L.size() < 5000) r->L.push_back("[" + std::to_string(hOf(r->p, offOf(r->p, (BW_element*)x))) + "," + std::to_string(deep) + "]"); }, e, &r, 0);
    o.raw("rec", jlist(r.L));
    // generic access
    const char *nn = w->getNodeName(e); o.s("nm", nn ? nn : "?");
    XML_Binary_Type bt = XBT_UNKNOWN; int bs = -1; const char *bv = w->getNodeBinValue(e, bt, bs);
    o.s("bt", tname(bt)).i("bs", bs).i("bp", bv ? (int)(bv - (const char*)e) : 0);
    struct PP { std::vector<std::string> L; int p; } pp; pp.p = p;
    w->ForAllParams([](const char *n, const char *, void *, void *u) { PP *r = (PP*)u; r->L.push_back(jstr(n ? n : "?")); }, e, &pp);
    o.raw("pn", jlist(pp.L));
    return o.done();
}

// value of the type itself, as a reader shows it
static void typedData(XML_Binary_Type at, const std::vector<char> &b, std::vector<char> &buf, XML_Binary_Data_Ref &R, std::string &cv) {
    if (at == XBT_UNKNOWN || at == XBT_VARIANT || at == XBT_BLOB_STRING) at = XBT_INT32; // no type of a value: has to be refused
    if (at == XBT_STRING) { buf = b; buf.push_back(0); R.content_size = R.size = buf.size(); cv = canon(b.data(), b.size()); }
    else if (at == XBT_BLOB || at == XBT_HEX) { int n = b.size(); buf.resize(4); memcpy(buf.data(), &n, 4); buf.insert(buf.end(), b.begin(), b.end()); R.size = n + 4; R.content_size = n; cv = canon(b.data(), n); }
    else { int n = XBT_IS_4(at) ? 4 : XBT_FIXEDSIZE(at); if (n < 0) n = 0; buf = b; buf.resize(n); R.size = R.content_size = n; cv = canon(buf.data(), n); }
    if (buf.empty()) buf.push_back(0);
    R.type = at; R.data = buf.data(); R.content = buf.data() + (R.size - R.content_size);
}
// creation of a detached tag; logs the canonical form of the argument
static BW_element *mkTag(int p, const std::string &fn, int id, const Val &v, std::string &cv) {
    BW_plugin *w = W[p]; BW_pool *P = w->getPool();
    if (fn == "tag") { cv = "x"; return w->tag(id); }
    if (fn == "ptag") { cv = "x"; return P->tag(id); }
    if (fn == "str") { cv = canon(v.bytes.data(), v.bytes.size()); return w->tagStr(id, v.bytes.c_str()); }
    if (fn == "pstr") { cv = canon(v.bytes.data(), v.bytes.size()); return P->tagString(id, v.null ? nullptr : v.bytes.c_str()); }
    if (fn == "blob" || fn == "hex") {
        std::vector<char> b(v.bytes.begin(), v.bytes.end()); int n = b.size(); if (v.null) n = (int)v.num; 
        cv = canon(b.data(), n);
        return fn == "blob" ? w->tagBLOB(id, v.null ? nullptr : b.data(), n) : w->tagHEX(id, v.null ? nullptr : b.data(), n);
    }
    if (fn == "i32") { cv = c4((int32_t)v.num); return w->tagInt32(id, (int32_t)v.num); }
    if (fn == "pi32") { cv = c4((int32_t)v.num); return P->tagInt32(id, (int32_t)v.num); }
    if (fn == "i64") { cv = c4((int64_t)v.num); return w->tagInt64(id, v.num); }
    if (fn == "pi64") { cv = c4((int64_t)v.num); return P->tagInt64(id, v.num); }
    if (fn == "f") { cv = c4((float)v.dbl); return w->tagFloat(id, (float)v.dbl); }
    if (fn == "guid") { std::vector<char> b(v.bytes.begin(), v.bytes.end()); b.resize(16); cv = canon(b.data(), 16); return w->tagGUID(id, (GUID_t*)b.data()); }
    if (fn == "sha1" || fn == "psha1") { std::vector<char> b(v.bytes.begin(), v.bytes.end()); b.resize(20); cv = canon(b.data(), 20); return fn == "sha1" ? w->tagSHA1(id, (uint8_t*)b.data()) : P->tagSHA1(id, (uint8_t*)b.data()); }
    if (fn == "time") { cv = c4((uint32_t)v.num); return w->tagTime(id, (time_t)v.num); }
    if (fn == "ptime") { cv = c4((uint32_t)v.num); return P->tagTime(id, (time_t)v.num); }
    if (fn == "t64") { cv = c4((int64_t)v.num); return w->tagTime64(id, v.num); }
    if (fn == "data") { XML_Binary_Data_Ref R; std::vector<char> buf; typedData(P->getTagType(id), std::vector<char>(v.bytes.begin(), v.bytes.end()), buf, R, cv); return w->tagData(id, R); }
    fprintf(stderr, "fn %s\n", fn.c_str()); _exit(96);
}
static BW_element *mkAttr(int p, BW_element *e, const std::string &fn, int id, const Val &v, std::string &cv) {
    std::vector<char> b(v.bytes.begin(), v.bytes.end());
    if (fn == "null") { cv = "x"; return e->attrNull(id); }
    if (fn == "str") { cv = canon(v.bytes.data(), v.bytes.size()); return e->attrStr(id, v.bytes.c_str()); }
    if (fn == "str2") { cv = canon(v.bytes.data(), v.bytes.size()); std::string t = "<" + v.bytes + ">tail"; return e->attrStr2(id, t.c_str() + 1, t.c_str() + 1 + v.bytes.size()); }
    if (fn == "blob") { cv = canon(b.data(), b.size()); return e->attrBLOB(id, b.data(), b.size()); }
    if (fn == "hex") { cv = canon(b.data(), b.size()); return e->attrHEX(id, b.data(), b.size()); }
    if (fn == "i32") { cv = c4((int32_t)v.num); BW_element *d = nullptr; BW_element *r = e->attrInt32(id, (int32_t)v.num, &d); return r; }
    if (fn == "u32") { cv = c4((uint32_t)v.num); return e->attrUInt32(id, (uint32_t)v.num); }
    if (fn == "i64") { cv = c4((int64_t)v.num); return e->attrInt64(id, v.num); }
    if (fn == "u64") { cv = c4((uint64_t)v.num); return e->attrUInt64(id, (uint64_t)v.num); }
    if (fn == "f") { cv = c4((float)v.dbl); return e->attrFloat(id, (float)v.dbl); }
    if (fn == "d") { cv = c4(v.dbl); return e->attrDouble(id, v.dbl); }
    if (fn == "guid") { b.resize(16); cv = canon(b.data(), 16); return e->attrGUID(id, b.data()); }
    if (fn == "sha1") { b.resize(20); cv = canon(b.data(), 20); return e->attrSHA1(id, b.data()); }
    if (fn == "time") { cv = c4((uint32_t)v.num); return e->attrTime(id, (time_t)v.num); }
    if (fn == "t64") { cv = c4((int64_t)v.num); return e->attrTime64(id, v.num); }
    if (fn == "data") { // data of the registered type itself
        XML_Binary_Data_Ref R; std::vector<char> buf; typedData(W[p]->getPool()->getAttrType(id), b, buf, R, cv);
        return e->attrData(id, R);
    }
    if (fn == "text") { // text data converted to the registered type
        XML_Binary_Data_Ref R; std::vector<char> buf = b; buf.push_back(0); R.type = XBT_STRING; R.data = R.content = buf.data(); R.size = R.content_size = buf.size();
        BW_element *r = e->attrData(id, R);
        cv = "text"; 
        return r;
    }
    fprintf(stderr, "afn %s\n", fn.c_str()); _exit(96);
}
// ---- conversion to the .xb format and printing
static std::string cs(const std::string &s) { return canon(s.data(), s.size()); }
static std::string chunks(std::function<int(int&, char*, int)> f) { std::string s; char b[4097]; for (int o = 0;;) { int n = f(o, b, sizeof b); if (n <= 0) break; s += b; } return s; }
static std::string xbValue(const XML_Binary_Data_Ref &d) {
    if (d.type == XBT_STRING || d.type == XBT_BLOB_STRING) return canon(d.content, strnlen(d.content, d.content_size));
    return canon(d.content, d.type == XBT_SHA1 && d.content_size > 20 ? 20 : d.type == XBT_NULL ? 0 : d.content_size);
}
static bool xmlName(const std::string &s) { if (s.empty() || isdigit((unsigned char)s[0]) || s[0] == '-' || s[0] == '.') return false; for (unsigned char c : s) if (!(isalnum(c) || c == '_' || c == '-' || c == '.' || c >= 128)) return false; return xmlCheckUTF8((const xmlChar*)s.c_str()); }
static bool xmlText(const std::string &s) { for (unsigned char c : s) if (c < 32 && c != '\n' && c != '\t') return false; return xmlCheckUTF8((const xmlChar*)s.c_str()); }
static std::string trim(const std::string &s) { size_t i = s.find_first_not_of(" \t\r\n"); return i == std::string::npos ? "" : s.substr(i, s.find_last_not_of(" \t\r\n") - i + 1); }
// plain: the document can be printed as XML
// grown: with the elements appended to an open-ended document
static void xbDump(XB_reader &R, XML_Item *X, int d, std::vector<std::string> &o, std::vector<std::string> &pr, bool &plain, bool grown = false) {
    std::vector<std::string> A, PA;
    for (int i = 0; i < X->paramcount; i++) {
        XML_Param_Description *P = X->getParamByIndex(i); XML_Binary_Data_Ref D = P->getData(X); const char *nm = R.getParamName(P->name); std::string n = nm ? nm : "?";
        std::string s = D.type == XBT_NULL ? "" : chunks([&](int &o, char *b, int n) { return P->getStringChunk(X, o, b, n); });
        A.push_back("[" + jstr(n) + "," + jstr(tname(D.type)) + "," + jstr(xbValue(D)) + "]"); PA.push_back("[" + jstr(n) + "," + jstr(cs(s)) + "]");
        if (!xmlName(n) || !xmlText(s) || s.find_first_of("\n\t") != std::string::npos) plain = false;
        for (int j = 0; j < i; j++) if (X->getParamByIndex(j)->name == P->name) plain = false;
    }
    XML_Binary_Data_Ref D = X->getData(); const char *nm = R.getNodeName(X->name); std::string n = nm ? nm : "?";
    std::string s = D.type == XBT_NULL ? "" : chunks([&](int &o, char *b, int n) { return X->getStringChunk(o, b, n); });
    if (!xmlName(n) || !xmlText(s)) plain = false;
    o.push_back(Obj().i("d", d).s("n", n).s("t", tname(D.type)).s("v", xbValue(D)).raw("a", jlist(A)).done());
    pr.push_back("[" + std::to_string(d) + "," + jstr(n) + "," + jstr(cs(X->childcount || grown ? trim(s) : s)) + "," + jlist(PA) + "]");
    if (grown) { int i = 0; for (int n = 0; n < 100000; n++) { XML_Item *c = X->getNextChild(R, i); if (!c) break; xbDump(R, c, d + 1, o, pr, plain, true); } }
    else for (int i = 0; i < X->childcount; i++) xbDump(R, X->getChildByIndex(i), d + 1, o, pr, plain);
}
static void xmlView(xmlNode *X, int d, std::vector<std::string> &o, bool grown = false) {
    std::vector<std::string> A; std::string t; bool kids = false;
    for (xmlAttr *a = X->properties; a; a = a->next) { xmlChar *v = xmlNodeGetContent((xmlNode*)a); A.push_back("[" + jstr((const char*)a->name) + "," + jstr(cs((const char*)v)) + "]"); xmlFree(v); }
    for (xmlNode *c = X->children; c; c = c->next) if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) t += (const char*)c->content; else if (c->type == XML_ELEMENT_NODE) kids = true;
    o.push_back("[" + std::to_string(d) + "," + jstr((const char*)X->name) + "," + jstr(cs(kids || grown ? trim(t) : t)) + "," + jlist(A) + "]");
    for (xmlNode *c = X->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) xmlView(c, d + 1, o, grown);
}
static long long conv(BW_plugin *w, bool pack, Obj &o) {
    std::string f = workdir + "/c.xb"; unlink(f.c_str()); bool r = false, plain = true, sorted = true;
    if (pack) { Bin_xml_packer C(w, f.c_str()); r = C.DoAll(); } else { Bin_xml_creator C(w, f.c_str(), XBTARGET_XB); r = C.DoAll(); }
    std::vector<std::string> T, PR, D[2], PX; bool open = false;
    if (r) {
        XB_reader *R = new XB_reader((char*)f.c_str()); R->setVerbosity(0); open = R->Initialize() && R->getRoot();
        if (open) {
            xbDump(*R, R->getRoot(), 0, T, PR, plain);
            for (int t = 0; t < 2; t++) { auto &S = t == 0 ? R->tag_symbols : R->param_symbols;
                for (int i = 0; i < S.count; i++) { D[t].push_back("[" + jstr(S.getSymbol(i)) + "," + jstr(tname(S.getType(i))) + "]"); if (i && strcmp(S.getSymbol(i - 1), S.getSymbol(i)) >= 0) sorted = false; } }
        }
        R->Finalize(); delete R;
    }
    std::ostringstream os; os << *w; std::string px = os.str(); bool parsed = false;
    if (r && plain) { xmlDoc *X = xmlReadMemory(px.data(), px.size(), "x", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE); parsed = X != nullptr; if (X) { xmlView(xmlDocGetRootElement(X), 0, PX); xmlFreeDoc(X); } }
    o.i("open", open).raw("t", jlist(T)).raw("dt", jlist(D[0])).raw("dp", jlist(D[1])).i("sorted", sorted).i("plain", plain).i("parsed", parsed).raw("pr", jlist(PR)).raw("px", jlist(PX)).i("pl", w->getRoot() ? 1 : px.size());
    unlink(f.c_str());
    return r;
}
// ---- documents that grow by appended elements
struct Grow { Bin_xml_creator *C = nullptr; std::string file; std::vector<XB_reader*> old; std::vector<std::string> was; } G[NSLOT];
static XB_reader *reader(const std::string &f) { XB_reader *R = new XB_reader((char*)f.c_str()); R->setVerbosity(0); if (R->Initialize() && R->getRoot()) return R; R->Finalize(); delete R; return nullptr; }
static void done(XB_reader *R) { R->Finalize(); delete R; }
static std::string view(XB_reader *R) { std::vector<std::string> o, pr; bool plain = true; xbDump(*R, R->getRoot(), 0, o, pr, plain, true); return jlist(o); }
static std::string viewOf(const std::string &f) { XB_reader *R = reader(f); if (!R) return "[]"; std::string s = view(R); done(R); return s; }
static void printedView(XB_reader *R, Obj &o) {
    std::vector<std::string> L, pr, px; bool plain = true, parsed = false; xbDump(*R, R->getRoot(), 0, L, pr, plain, true);
    std::ostringstream os; os << *R; std::string t = os.str();
    if (plain) { xmlDoc *X = xmlReadMemory(t.data(), t.size(), "x", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE); parsed = X != nullptr; if (X) { xmlView(xmlDocGetRootElement(X), 0, px, true); xmlFreeDoc(X); } }
    o.i("plain", plain).i("parsed", parsed).i("printed", pr == px);
}
static void ungrow(int p) { for (auto *R : G[p].old) done(R); G[p].old.clear(); G[p].was.clear(); if (G[p].C) { delete G[p].C; G[p].C = nullptr; } if (W[p]) W[p]->LinkCreator(nullptr); }
static void watch(int p) { XB_reader *R = reader(G[p].file); if (R) { G[p].old.push_back(R); G[p].was.push_back(view(R)); } }
static long long sizeOf(const std::string &f) { struct stat st; return stat(f.c_str(), &st) ? -1 : (long long)st.st_size; }
// mkxb p u|p|c|n : the document is written, plain, packed, under the name of its source; n: the creator is made only
static long long mkxb(int p, const std::string &k, Obj &o) {
    ungrow(p); Grow &g = G[p]; bool r = false; g.file = workdir + (k == "c" ? "/f" + std::to_string(fileOf[p]) : "/a" + std::to_string(p)) + ".xb";
    g.C = k == "p" ? new Bin_xml_packer(W[p], g.file.c_str()) : k == "c" ? new Bin_xml_creator(W[p]) : new Bin_xml_creator(W[p], g.file.c_str());
    std::vector<std::string> D[2]; std::string v = "[]"; bool open = false;
    if (k != "n") { unlink(g.file.c_str()); r = g.C->DoAll(); }
    if (r) if (XB_reader *R = reader(g.file)) { open = true; v = view(R); printedView(R, o);
        for (int t = 0; t < 2; t++) { auto &S = t == 0 ? R->tag_symbols : R->param_symbols; for (int i = 0; i < S.count; i++) D[t].push_back("[" + jstr(S.getSymbol(i)) + "," + jstr(tname(S.getType(i))) + "]"); }
        done(R); watch(p); }
    if (!open) o.i("plain", 0).i("parsed", 0).i("printed", 0);
    o.s("k", k).i("open", open).raw("v", v).raw("dt", jlist(D[0])).raw("dp", jlist(D[1]));
    return r;
}
// app p h, appl p h k : the list starting at h is appended; l: there is space for k bytes only
static long long app(int p, int h, int lim, Obj &o) {
    Grow &g = G[p]; std::vector<char> b0, b1; { std::ifstream i(g.file, std::ios::binary); b0.assign(std::istreambuf_iterator<char>(i), {}); } long long s0 = g.file.empty() ? -1 : sizeOf(g.file);
    struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); auto sg = signal(SIGXFSZ, SIG_IGN);
    out.flush(); if (lim >= 0 && s0 >= 0) { nw = old; nw.rlim_cur = s0 + lim; setrlimit(RLIMIT_FSIZE, &nw); }
    bool r = W[p]->Write(el(p, h));
    setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sg);
    long long s1 = g.file.empty() ? -1 : sizeOf(g.file); { std::ifstream i(g.file, std::ios::binary); b1.assign(std::istreambuf_iterator<char>(i), {}); }
    bool same = s1 >= s0 && b1.size() >= b0.size() && memcmp(b0.data(), b1.data(), b0.size()) == 0, keep = true;
    for (size_t i = 0; i < g.old.size(); i++) if (view(g.old[i]) != g.was[i]) keep = false;
    std::vector<std::string> cuts; std::vector<long> at; std::string last; bool open = false;
    o.i("k", lim).i("h", h).i("s0", s0).i("s1", s1).i("same", same);
    if (s1 >= 0) if (XB_reader *R = reader(g.file)) { open = true; printedView(R, o); done(R);
        std::string c = workdir + "/cut.xb"; { std::ofstream f(c, std::ios::binary); f.write(b1.data(), b1.size()); }
        std::vector<std::pair<long, std::string>> V; long n = s1, d = s1 - s0;
        while (n >= s0 && same) { truncate(c.c_str(), n); std::string v = viewOf(c); if (V.empty() || V.back().second != v) V.push_back({n, v}); else V.back().first = n;
            if (n == s0) break; n -= d <= 300 || s1 - n < 40 || n - s0 < 40 ? 1 : std::min<long>(d / 150 + 1, n - s0); }
        for (int i = (int)V.size() - 1; i >= 0; i--) { at.push_back(V[i].first); cuts.push_back(V[i].second); }
        unlink(c.c_str());
        if (g.old.size() < 6) watch(p); }
    if (!open) o.i("plain", 0).i("parsed", 0).i("printed", 0);
    o.i("open", open).i("keep", keep).raw("at", jints(at)).raw("cuts", jlist(cuts));
    return r;
}
static int I(const std::vector<std::string> &t, size_t i) { return i < t.size() ? atoi(t[i].c_str()) : 0; }
static void slurp(const std::string &f, std::vector<char> &b) { std::ifstream i(f, std::ios::binary); b.assign(std::istreambuf_iterator<char>(i), {}); }
static std::string fileSum(const std::string &f) { std::vector<char> b; struct stat st; if (stat(f.c_str(), &st)) return "none"; slurp(f, b); uint64_t h = 1469598103934665603ull; for (char c : b) { h ^= (unsigned char)c; h *= 1099511628211ull; } char s[64]; snprintf(s, sizeof s, "%zu:%016llx", b.size(), (unsigned long long)h); return s; }

static void forget(int f) { SH->nh[f] = 0; SH->named[f] = 0; memset(SH->map[f], 0, sizeof SH->map[f]); }
// the ring an element is in
static std::vector<int> ringOf(int p, int h) { std::vector<int> R; BW_element *e = el(p, h); int o0 = offOf(p, e), o = o0, n = 0; do { R.push_back(hOf(p, o)); o = W[p]->BWE(o)->next; } while (o != o0 && o != 0 && n++ < MAXH); return R; }
static int ownerOf(int p, int h) { std::vector<int> R = ringOf(p, h); for (int x = 1; x <= SH->nh[fileOf[p]]; x++) { BW_element *e = el(p, x); for (int y : R) { int o = offOf(p, el(p, y)); if (o && (e->first_child == o || e->first_attribute == o)) return x; } } return 0; }
static bool below(int p, int h, int x) { for (int n = 0; x && n < MAXH; n++) { if (x == h) return true; x = ownerOf(p, x); } return false; }
static bool isTag(int p, int h) { return el(p, h)->flags & BIN_WRITE_ELEMENT_FLAG; }
static bool memberOf(int p, int h, int c) { BW_element *e = el(p, h); for (int f : {e->first_child, e->first_attribute}) if (f) for (int y : ringOf(p, hOf(p, f))) if (y == c) return true; return false; }
static bool mayAdd(int p, int h, int c) { int rt = W[p]->getRoot() ? hOf(p, offOf(p, (BW_element*)W[p]->getRoot())) : 0; if (!isTag(p, h) || ownerOf(p, c) || rt == c) return false; for (int y : ringOf(p, c)) if (y <= 0 || isTag(p, y) != isTag(p, c) || below(p, y, h)) return false; return true; }
// is the call one a caller may make? (after refused calls a history may not fit any more)
static bool mayDo(const std::string &n, int p, const std::vector<int> &H) {
    int rt = W[p]->getRoot() ? hOf(p, offOf(p, (BW_element*)W[p]->getRoot())) : 0;
    if (n == "add") return mayAdd(p, H[0], H[1]);
    if (n == "join") { if (H[0] == H[1] || ownerOf(p, H[1]) || isTag(p, H[0]) != isTag(p, H[1]) || rt == H[1] || rt == H[0]) return false; for (int y : ringOf(p, H[0])) if (y == H[1]) return false; int w = ownerOf(p, H[0]); return w == 0 || mayAdd(p, w, H[1]); }
    if (n == "rem" || n == "sets") return memberOf(p, H[0], H[1]);
    if (n == "rep") return memberOf(p, H[0], H[1]) && H[1] != H[2] && ownerOf(p, H[2]) == 0 && ringOf(p, H[2]).size() == 1 && isTag(p, H[1]) == isTag(p, H[2]) && rt != H[2] && !below(p, H[2], H[0]);
    if (n == "app" || n == "appl") return isTag(p, H[0]);
    if (n == "root") return ownerOf(p, H[0]) == 0 && ringOf(p, H[0]).size() == 1;
    return true;
}
static void step(std::vector<std::string> t) {
    bool wantObs = false, wantSum = false; int name = 0;
    if (t[0][0] == '!') { wantObs = true; t[0] = t[0].substr(1); }
    if (t.back()[0] == '=') { name = atoi(t.back().c_str() + 1); t.pop_back(); }
    {
        static const std::map<std::string, std::vector<int>> HA = {{"at",{2}},{"add",{2,3}},{"join",{2,3}},{"rem",{2,3}},{"rep",{2,3,4}},{"retype",{2}},{"root",{2}},{"find",{2}},{"set",{2}},{"sets",{2,3}},{"wr",{2}},{"probe",{2}},{"byval",{2}},{"app",{2}},{"appl",{2}}};
        static const std::set<std::string> NS = {"open","kill","mkfile","patch","resize","peek","obs"};
        int p = I(t, 1); std::string why; std::vector<int> H;
        if (!NS.count(t[0]) && !W[p]) why = "closed";
        auto it = HA.find(t[0]);
        if (why.empty() && it != HA.end()) {
            int f = fileOf[p];
            for (int i : it->second) { int h = I(t, i); if (SH->named[f]) { h = h < MAXH ? SH->map[f][h] : 0; t[i] = std::to_string(h); } H.push_back(h); if (h <= 0 || h > SH->nh[f]) why = "dead"; }
            if (why.empty() && !mayDo(t[0], p, H)) why = "skip";
        }
        if (!why.empty()) {
            H.resize(3); BW_pool *P = W[p] ? W[p]->getPool() : nullptr;
            if (name && why != "closed") { SH->named[fileOf[p]] = 1; SH->map[fileOf[p]][name] = 0; }
            out.line(Obj().s("n", why).i("p", p).s("op", t[0]).i("h", H[0]).i("c", H[1]).i("d", H[2]).i("r", 0).i("al", P ? P->allocator : 0).i("fs", P ? (int)P->file_size : 0).raw("o", wantObs ? obsAll() : "[]").done());
            return;
        }
    }
    const std::string &n = t[0]; Obj o; o.s("n", n); int p = I(t, 1); o.i("p", p); long long r = 0;
    if (n == "open") { // open p f max flags
        int f = I(t, 2); o.i("f", f).i("max", I(t, 3)).i("new", I(t, 4)); std::string before = fileSum(path(f));
        BW_plugin *w = new BW_plugin(path(f).c_str(), nullptr, I(t, 3), I(t, 4) ? BIN_WRITE_CFG_ALWAYS_CREATE_NEW : 0);
        r = w->Initialize(); if (r) { W[p] = w; fileOf[p] = f; if (before == "none" || I(t, 4)) forget(f); } else delete w;
        o.i("same", before == fileSum(path(f)) ? 1 : 0);
    }
    else if (n == "close") { ungrow(p); r = W[p]->Finalize(); delete W[p]; W[p] = nullptr; }
    else if (n == "reinit") { r = W[p]->Finalize() && W[p]->Initialize(); }
    else if (n == "kill") { o.i("r", 1).i("al", 0).i("fs", 0).raw("o", "[]"); out.line(o.done()); out.flush(); SH->idx = SH->idx + 1; SH->killed = 1; kill(getpid(), SIGKILL); }
    else if (n == "mkfile") { // mkfile - f pct-content
        int f = I(t, 2); o.i("f", f).s("v", t[3].substr(0, 24)).i("len", unpct(t[3]).size()); std::ofstream(path(f), std::ios::binary) << (t.size() > 3 ? unpct(t[3]) : ""); r = 1; }
    else if (n == "patch") { // patch - f off int32 : damages a closed file
        int f = I(t, 2); int32_t v = (int32_t)strtoll(t[4].c_str(), 0, 10); o.i("f", f).i("at", I(t, 3)).i("v", v); int fd = open(path(f).c_str(), O_RDWR); pwrite(fd, &v, 4, I(t, 3)); close(fd); r = 1; }
    else if (n == "resize") { int f = I(t, 2); o.i("f", f).i("v", I(t, 3)); r = truncate(path(f).c_str(), I(t, 3)) == 0; }
    else if (n == "peek") { // another process looks at file f
        int f = I(t, 2); o.i("f", f); int fds[2]; pipe(fds); pid_t c = fork();
        if (c == 0) { close(fds[0]); out.buf.clear(); for (int i = 0; i < NSLOT; i++) W[i] = nullptr;
            BW_plugin *w = new BW_plugin(path(f).c_str(), nullptr, I(t, 3) ? I(t, 3) : 0x20000, 0); std::string s = "{\"open\":0}"; if (w->Initialize()) { W[0] = w; fileOf[0] = f; s = obs1(0); }
            size_t k = 0; while (k < s.size()) { ssize_t m = write(fds[1], s.data() + k, s.size() - k); if (m <= 0) break; k += m; } _exit(0); }
        close(fds[1]); std::string s; char b[65536]; ssize_t m; while ((m = read(fds[0], b, sizeof b)) > 0) s.append(b, m); close(fds[0]); int st; waitpid(c, &st, 0);
        r = WIFEXITED(st) && WEXITSTATUS(st) == 0; o.raw("peek", s.empty() ? "{\"open\":-1}" : s); }
    else if (n == "rtid" || n == "raid") { std::string nm = unpct(t[3]); o.i("id", I(t, 2)).s("nm", nm).s("ty", t[4]); r = n == "rtid" ? W[p]->registerTag(I(t, 2), nm.c_str(), tcode(t[4])) : W[p]->registerAttr(I(t, 2), nm.c_str(), tcode(t[4])); }
    else if (n == "rt") { std::string nm = unpct(t[2]); o.s("nm", nm).s("ty", t[3]); r = W[p]->registerTag(nm.c_str(), tcode(t[3])); }
    else if (n == "ra") { std::string nm = unpct(t[2]); o.s("nm", nm).s("ty", t[3]); r = W[p]->registerParam(nm.c_str(), tcode(t[3])); }
    else if (n == "alt") { o.i("id", I(t, 2)).s("ty", t[3]); r = W[p]->alterTag(I(t, 2), tcode(t[3])); }
    else if (n == "ala") { o.i("id", I(t, 2)).s("ty", t[3]); r = W[p]->alterAttr(I(t, 2), tcode(t[3])); }
    else if (n == "imp") { // imp p xmltext : imports both dictionaries of a binary document made from the text
        std::string x = workdir + "/imp.xml", b = workdir + "/imp.xb"; std::ofstream(x) << unpct(t[2]);
        Bin_xml_packer::Convert(x.c_str(), b.c_str());
        XB_reader R((char*)b.c_str()); r = R.Initialize(); std::vector<std::string> a, c;
        if (r) { for (int i = 0; i < R.tag_symbols.count; i++) a.push_back("[" + jstr(R.tag_symbols.getSymbol(i)) + "," + jstr(tname(R.tag_symbols.getType(i))) + "]");
                 for (int i = 0; i < R.param_symbols.count; i++) c.push_back("[" + jstr(R.param_symbols.getSymbol(i)) + "," + jstr(tname(R.param_symbols.getType(i))) + "]"); 
                 W[p]->importTags(&R); W[p]->importParams(&R); }
        o.raw("it", jlist(a)).raw("ip", jlist(c)); }
    else if (n == "allreg") { r = W[p]->allRegistered(); }
    else if (n == "mk") { std::string cv; Val v = val(t[4]); if (t.size() > 5) v.num = I(t, 5); BW_element *e = mkTag(p, t[2], I(t, 3), v, cv); o.s("fn", t[2]).i("id", I(t, 3)).s("v", cv).i("len", v.bytes.size()); r = e ? newH(p, e) : 0; }
    else if (n == "at") { // at p h fn id val
        BW_element *e = el(p, I(t, 2)); int lastBefore = e->first_attribute ? W[p]->BWE(e->first_attribute)->prev : 0; std::string cv; Val v = val(t[5]);
        BW_element *q = mkAttr(p, e, t[3], I(t, 4), v, cv); o.i("h", I(t, 2)).s("fn", t[3]).i("id", I(t, 4)).s("v", cv).i("len", v.bytes.size());
        int last = e->first_attribute ? W[p]->BWE(e->first_attribute)->prev : 0;
        r = q == nullptr ? 0 : q != e ? -2 : last != lastBefore && hOf(p, last) < 0 ? newH(p, W[p]->BWE(last)) : -3; }
    else if (n == "add") { o.i("h", I(t, 2)).i("c", I(t, 3)); r = hOf(p, offOf(p, el(p, I(t, 2))->add(el(p, I(t, 3))))); }
    else if (n == "join") { o.i("h", I(t, 2)).i("c", I(t, 3)); r = hOf(p, offOf(p, el(p, I(t, 2))->join(el(p, I(t, 3))))); }
    else if (n == "rem") { o.i("h", I(t, 2)).i("c", I(t, 3)); r = hOf(p, offOf(p, el(p, I(t, 2))->remove(el(p, I(t, 3))))); }
    else if (n == "rep") { o.i("h", I(t, 2)).i("c", I(t, 3)).i("d", I(t, 4)); r = hOf(p, offOf(p, el(p, I(t, 2))->replace(el(p, I(t, 3)), el(p, I(t, 4))))); }
    else if (n == "retype") { o.i("h", I(t, 2)).s("ty", t[3]); r = hOf(p, offOf(p, el(p, I(t, 2))->retype(tcode(t[3])))); }
    else if (n == "root") { o.i("h", I(t, 2)); W[p]->setRoot(el(p, I(t, 2))); r = hOf(p, W[p]->getRoot() ? offOf(p, (BW_element*)W[p]->getRoot()) : 0); }
    else if (n == "find") { // find-or-create
        o.i("h", I(t, 2)).i("id", I(t, 3)); r = hOrNew(p, el(p, I(t, 2))->tag(I(t, 3))); }
    else if (n == "set") { // set p h fn id val
        BW_element *e = el(p, I(t, 2)); int id = I(t, 4); Val v = val(t[5]); std::string cv; BW_element *q = nullptr; const std::string &fn = t[3];
        if (fn == "i32") { cv = c4((int32_t)v.num); q = e->tagSetInt32(id, (int32_t)v.num); }
        else if (fn == "i64") { cv = c4((int64_t)v.num); q = e->tagSetInt64(id, v.num); }
        else if (fn == "str") { cv = canon(v.bytes.data(), v.bytes.size()); q = e->tagSetString(id, v.null ? nullptr : v.bytes.c_str()); }
        else if (fn == "time") { cv = c4((uint32_t)v.num); q = e->tagSetTime(id, v.num); }
        else if (fn == "sha1") { std::vector<char> b(v.bytes.begin(), v.bytes.end()); b.resize(20); cv = canon(b.data(), 20); q = e->tagSetSHA1(id, (uint8_t*)b.data()); }
        o.i("h", I(t, 2)).s("fn", fn).i("id", id).s("v", cv).i("len", v.bytes.size()); r = hOrNew(p, q); }
    else if (n == "sets") { // sets p parent h val
        BW_element *q = el(p, I(t, 2)), *e = el(p, I(t, 3)); Val v = val(t[4]); std::string cv = canon(v.bytes.data(), v.bytes.size());
        std::vector<int> before; BW_offset_t i = 0; for (BW_element *c = q->NextChild(i); c; c = q->NextChild(i)) before.push_back(offOf(p, c));
        bool ch = e->setStr(W[p], q, v.null ? nullptr : v.bytes.c_str());
        int nh = 0; i = 0; for (BW_element *c = q->NextChild(i); c; c = q->NextChild(i)) if (hOf(p, offOf(p, c)) < 0) nh = newH(p, c);
        o.i("h", I(t, 2)).i("c", I(t, 3)).s("v", cv).i("len", v.bytes.size()).i("ch", ch); r = nh; }
    else if (n == "wr") { // write through a getter pointer
        BW_element *e = el(p, I(t, 2)); Val v = val(t[4]); std::string cv; bool ok = false; const std::string &g = t[3];
        if (g == "i32") { int32_t *q = e->getInt32(); if (q) { *q = (int32_t)v.num; ok = true; } cv = c4((int32_t)v.num); }
        else if (g == "i64") { int64_t *q = e->getInt64(); if (q) { *q = v.num; ok = true; } cv = c4((int64_t)v.num); }
        else if (g == "u64") { uint64_t *q = e->getUInt64(); if (q) { *q = v.num; ok = true; } cv = c4((uint64_t)v.num); }
        else if (g == "f") { float *q = e->getFloat(); if (q) { *q = (float)v.dbl; ok = true; } cv = c4((float)v.dbl); }
        o.i("h", I(t, 2)).s("g", g).s("v", cv); r = ok; }
    else if (n == "clear") { r = W[p]->Clear(); if (r) forget(fileOf[p]); o.i("ds", W[p]->getDataSize()); }
    else if (n == "conv") { o.s("k", t[2]); r = conv(W[p], t[2] == "p", o); } // conv p u|p : into a binary document, plain or packed, and printed
    else if (n == "mkxb") r = mkxb(p, t[2], o);
    else if (n == "app" || n == "appl") r = app(p, I(t, 2), n == "app" ? -1 : I(t, 3), o);
    else if (n == "dsize") { r = W[p]->getDataSize(); }
    else if (n == "probe") { o.i("h", I(t, 2)).raw("g", probe(p, I(t, 2))); r = 1; }
    else if (n == "byval") { // byval p h tag attr type val : findChildByParam
        Val v = val(t[6]); XML_Binary_Type ty = tcode(t[5]); std::string cv; std::vector<char> b(v.bytes.begin(), v.bytes.end());
        if (ty == XBT_STRING) { cv = canon(b.data(), b.size()); b.push_back(0); } else if (XBT_IS_4(ty)) { int32_t x = v.num; b.assign((char*)&x, (char*)&x + 4); if (ty == XBT_FLOAT) { float f = v.dbl; memcpy(b.data(), &f, 4); } cv = canon(b.data(), 4); } else if (XBT_IS_8(ty)) { int64_t x = v.num; b.assign((char*)&x, (char*)&x + 8); if (ty == XBT_DOUBLE) memcpy(b.data(), &v.dbl, 8); cv = canon(b.data(), 8); }
        else { b.resize(XBT_Size2(ty, 0)); cv = canon(b.data(), XBT_FIXEDSIZE(ty)); }
        BW_element *q = el(p, I(t, 2))->findChildByParam(I(t, 3), I(t, 4), ty, b.data(), ty == XBT_STRING ? 1 : (int)b.size());
        o.i("h", I(t, 2)).i("tag", I(t, 3)).i("attr", I(t, 4)).s("ty", t[5]).s("v", cv); r = hOf(p, offOf(p, q)); }
    else if (n == "obs") { wantObs = true; r = 1; }
    else { fprintf(stderr, "op %s\n", n.c_str()); _exit(96); }
    if (name && W[p]) { SH->named[fileOf[p]] = 1; SH->map[fileOf[p]][name] = r > 0 ? (int)r : 0; }
    o.i("r", r);
    BW_pool *P = p < NSLOT && W[p] ? W[p]->getPool() : nullptr;
    o.i("al", P ? P->allocator : 0).i("fs", P ? (int)P->file_size : 0);
    o.raw("o", wantObs ? obsAll() : "[]"); (void)wantSum;
    out.line(o.done());
}

int main(int argc, char **argv) {
    auto scripts = readScripts(argv[1]); out.open(argv[2]); workdir = argv[3];
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    quiet();
    for (auto &s : scripts) {
        cur = &s; out.line(Obj().s("n", "RESET").s("sid", s.id).i("p", 0).i("r", 0).i("al", 0).i("fs", 0).raw("o", "[]").done()); out.flush();
        SH->idx = 0; SH->done = 0; for (int f = 0; f < NFILE; f++) if (SH->nh[f] || SH->named[f]) forget(f);
        for (int f = 0; f < NFILE; f++) unlink(path(f).c_str());
        for (;;) {
            SH->killed = 0;
            pid_t c = fork();
            if (c == 0) {
                limits(20);
                while (SH->idx < (int)s.ops.size()) { step(s.ops[SH->idx]); out.flush(); SH->idx = SH->idx + 1; }
                out.flush(); SH->done = 1; _exit(0);
            }
            int st; waitpid(c, &st, 0);
            if (SH->killed && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
            if (!SH->done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97)) return 3; out.line(crashLine(st)); out.flush(); }
            break;
        }
    }
    for (int f = 0; f < NFILE; f++) unlink(path(f).c_str());
    return 0;
}
