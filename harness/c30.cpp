// C30: reading a malformed document is refused with an exception, or gives a usable object; it never crashes.
#include "c22.cpp"
#include <nlohmann/json.hpp>
using nlohmann::json;
// one element of every array is enough
static void trim(json &j) { if (j.is_array()) while (j.size() > 1) j.erase(j.size() - 1); if (j.is_structured()) for (auto &x : j) trim(x); }
static uint32_t count(const json &j) { uint32_t n = 1; if (j.is_structured()) for (auto &x : j) n += count(x); return n; }
static json other(uint32_t kind)
{
    switch (kind) {
    case 0: return nullptr;
    case 1: return true;
    case 2: return -1;
    case 3: return UINT64_MAX;
    case 4: return "";
    case 5: { char c; eg_sym_bytes(&c, 1, "char"); eg_assume(c >= ' ' && c < 0x7f && c != '"' && c != '\\'); return string(1, c); }
    case 6: { char c[3] = {'A', 'x', 'x'}; eg_sym_bytes(c, 2, "chars"); for (int i = 0; i < 2; i++) eg_assume((c[i] >= '0' && c[i] <= '9') || (c[i] >= 'A' && c[i] <= 'F')); return string(c, 2); }
    case 7: return string(1100, 'F');
    case 8: return json::array();
    case 9: return json::object();
    default: { json a = json::array(); a.push_back(nullptr); return a; }
    }
}
static const uint32_t KINDS = 11;
// replaces (or removes) the node numbered k; true once done
static bool alter(json &j, uint32_t &k, bool remove, uint32_t kind)
{
    if (!j.is_structured()) return false;
    for (auto it = j.begin(); it != j.end(); ++it) {
        if (k-- == 0) { if (remove) j.erase(it); else *it = other(kind); return true; }
        if (alter(*it, k, remove, kind)) return true;
    }
    return false;
}
template <class T> void use(const T &x) { x.toJson(); }
template <class T> void use(T &x, int) { x.toJson(); }
template <class T, class B> void malformed(B build)
{
    Gen g{UINT32_MAX};
    string text;
    { auto x = build(g); text = x->toJson(); }
    json doc = json::parse(text);
    trim(doc);
    uint32_t n = count(doc) - 1, k = eg_choice(n, "node"), kind = eg_choice(KINDS + 1, "kind");
    alter(doc, k, kind == KINDS, kind);
    uint32_t f = eg_def("formats", 1) > 1 ? eg_choice(2, "format") : 0;
    unique_ptr<T> r;
    try {
        if (f == 0) r = T::fromJson(doc.dump());
        else r = T::fromBson(json::to_bson(doc));
    } catch (const std::exception &) {}
    if (!r) { eg_reach(1); return; }
    // what was accepted can be looked at and written again
    try { Dump d; dump(d, r.get()); } catch (const std::exception &) {}
    try { r->toJson(); } catch (const std::exception &) {}
    eg_reach(2);
}
ENTRY(h_bad_plain) { malformed<PlaintextBallot>(plain); }
ENTRY(h_bad_device) { malformed<EncryptionDevice>(device); }
ENTRY(h_bad_context) { malformed<CiphertextElectionContext>(context); }
ENTRY(h_bad_compact) { malformed<CompactPlaintextBallot>(compact); }
ENTRY(h_bad_compact_cipher) { malformed<CompactCiphertextBallot>(compactCipher); }
ENTRY(h_bad_manifest) { malformed<Manifest>([](Gen &g) { return manifest(g, UINT32_MAX); }); }
ENTRY(h_bad_internal) { malformed<InternalManifest>([](Gen &g) { return internal(g, UINT32_MAX); }); }
ENTRY(h_bad_cipher) { malformed<CiphertextBallot>(cipher); }
ENTRY(h_bad_submitted) { malformed<SubmittedBallot>(submitted); }
// documents cut short, or with a byte changed
static void read(uint32_t type, uint32_t f, const string &s)
{
    vector<uint8_t> b(s.begin(), s.end());
    bool accepted = false;
#define READ(T) { auto r = f == 0 ? T::fromJson(s) : T::fromBson(b); accepted = r != nullptr; if (r) { Dump d; dump(d, r.get()); } }
#define READ3(T) { auto r = f == 0 ? T::fromJson(s) : f == 1 ? T::fromBson(b) : T::fromMsgPack(b); accepted = r != nullptr; if (r) { Dump d; dump(d, r.get()); } }
    try {
        switch (type) {
        case 0: READ3(PlaintextBallot) break;
        case 1: READ(EncryptionDevice) break;
        case 2: READ3(CompactPlaintextBallot) break;
        default: READ3(Manifest) break;
        }
    } catch (const std::exception &) {}
    eg_reach(accepted ? 2 : 1);
}
static string as(const json &j, uint32_t f)
{
    if (f == 0) return j.dump();
    auto v = f == 1 ? json::to_bson(j) : json::to_msgpack(j);
    return string(v.begin(), v.end());
}
static string document(uint32_t type, uint32_t f)
{
    Gen g{UINT32_MAX};
    json j = json::parse(type == 0 ? plain(g)->toJson() : type == 1 ? device(g)->toJson() : compact(g)->toJson());
    trim(j);
    return as(j, f);
}
ENTRY(h_bytes)
{
    uint32_t type = (uint32_t)eg_def("type", 1), f = (uint32_t)eg_def("format", 0);
    string s = document(type, f);
    uint32_t at = eg_choice((uint32_t)s.size(), "position");
    if (eg_choice(2, "cut")) s.resize(at);
    else { char c; eg_sym_bytes(&c, 1, "byte"); s[at] = c; }
    read(type, f, s);
}
// any few bytes
ENTRY(h_short)
{
    uint32_t type = eg_choice(4, "type"), n = eg_choice((uint32_t)eg_def("bytes", 2) + 1, "length"), f = eg_choice(3, "format");
    if (f == 2 && type == 1) f = 0;
    string s(n, 0);
    if (n) eg_sym_bytes(&s[0], n, "bytes");
    read(type, f, s);
}
