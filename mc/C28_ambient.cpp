// C28: results are a function of the documented inputs; the ambient state of the process (locale, time zone,
// leftover errors, rounding, formatting state of the caller's stream, what memory held before) changes nothing.
#include "cases.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <climits>
#include <locale>
#include <openssl/err.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
using std::vector;
const char* mc::property_id = "C28";

// f's result in a process of its own
static string fresh(const std::function<string()>& f) {
    int p[2]; if (pipe(p)) _exit(97); fflush(nullptr); pid_t pid = fork(); if (pid < 0) _exit(97);
    if (!pid) { close(p[0]); string r = f(); for (size_t i = 0; i < r.size();) { ssize_t k = write(p[1], r.data() + i, r.size() - i); if (k <= 0) _exit(98); i += (size_t)k; } _exit(0); }
    close(p[1]); string r; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t)k); close(p[0]); int st; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99); return r;
}
static const string& expected(size_t i) { static vector<string> e; static vector<bool> have; if (e.empty()) { e.resize(cases().size()); have.resize(e.size()); } if (!have[i]) { size_t a = i / 64 * 64, b = std::min(a + 64, e.size()); string all = fresh([&] { string o; for (size_t k = a; k < b; k++) { string r = cases()[k].run(); o += fmt("%zu ", r.size()) + r; } return o; }); size_t p = 0; for (size_t k = a; k < b; k++) { size_t q = all.find(' ', p), n = (size_t)strtoul(all.c_str() + p, nullptr, 10); e[k] = all.substr(q + 1, n); p = q + 1 + n; have[k] = true; } } return e[i]; }
static void compare(Ctx& c, size_t i, const string& env, const string& got) { c.transition(); c.validated(); c.state(env + "|" + cases()[i].name); c.sample(env + ": " + cases()[i].name + " -> " + show(got, 200)); c.outcome(got); c.eq(got, expected(i), "differs", cases()[i].name + " under " + env + " (expected: in a fresh process in the C locale)"); }

#ifndef MEMORY
// ---- locales, compiled once from the system's sources
struct Loc { const char* src; const char* map; string name; };
static vector<Loc>& locales(bool th) {
    static vector<Loc> v; if (!v.empty()) return v; v = {{"tr_TR", "UTF-8", ""}, {"tr_TR", "ISO-8859-9", ""}, {"de_DE", "ISO-8859-1", ""}, {"ru_RU", "KOI8-R", ""}, {"ja_JP", "EUC-JP", ""}, {"hi_IN", "UTF-8", ""}}; if (th) for (Loc l : {Loc{"az_AZ", "UTF-8", ""}, Loc{"lt_LT", "ISO-8859-13", ""}, Loc{"el_GR", "ISO-8859-7", ""}, Loc{"zh_CN", "GB18030", ""}, Loc{"ar_EG", "ISO-8859-6", ""}, Loc{"th_TH", "TIS-620", ""}, Loc{"ru_RU", "CP1251", ""}, Loc{"crh_UA", "UTF-8", ""}, Loc{"ko_KR", "EUC-KR", ""}, Loc{"fa_IR", "UTF-8", ""}, Loc{"hy_AM", "ARMSCII-8", ""}, Loc{"vi_VN", "TCVN5712-1", ""}}) v.push_back(l);
    const char* t = getenv("VERIF_TMP"); string d = string(t ? t : "/tmp") + "/locales"; mkdir(d.c_str(), 0755); vector<pid_t> kids; for (auto& l : v) { string to = d + "/" + l.src + "." + l.map; if (access((to + "/LC_CTYPE").c_str(), R_OK) == 0) continue; pid_t p = fork(); if (!p) { if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(1); execlp("localedef", "localedef", "--no-archive", "-c", "-i", l.src, "-f", l.map, to.c_str(), (char*)nullptr); _exit(127); } kids.push_back(p); } for (pid_t p : kids) { int st; waitpid(p, &st, 0); }
    setenv("LOCPATH", d.c_str(), 1); vector<Loc> ok; for (auto& l : v) { l.name = string(l.src) + "." + l.map; if (locale_t x = newlocale(LC_ALL_MASK, l.name.c_str(), nullptr)) { freelocale(x); ok.push_back(l); } } unsetenv("LOCPATH"); if (locale_t x = newlocale(LC_ALL_MASK, "C.UTF-8", nullptr)) { freelocale(x); ok.push_back({"C", "UTF-8", "C.UTF-8"}); } setenv("LOCPATH", d.c_str(), 1); if (ok.size() < 2) fprintf(stderr, "note: no locale could be compiled\n"); v = ok; return v;
}
struct Points : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\3"; } string do_truename() const override { return "yes"; } string do_falsename() const override { return "no"; } };
struct Letters : std::ctype<char> { static const mask* table() { static mask t[table_size]; memcpy(t, classic_table(), sizeof t); t['I'] &= (mask)~upper; t[0xa0] |= space | blank; t['0'] &= (mask)~digit; t[0xc9] |= upper | alpha; t[';'] |= space; t['x'] |= space; return t; } Letters() : std::ctype<char>(table()) {} char do_tolower(char x) const override { return x == 'I' ? '\xfd' : (char)::tolower((unsigned char)x); } const char* do_tolower(char* a, const char* b) const override { for (; a != b; a++) *a = do_tolower(*a); return b; } };
static std::locale odd() { return std::locale(std::locale(std::locale::classic(), new Points), new Letters); }
struct Env { string name; std::function<void()> enter, leave; bool stream = false; };
static vector<Env>& envs(bool th) {
    static vector<Env> v; if (!v.empty()) return v; for (auto& l : locales(th)) { string n = l.name; v.push_back({"setlocale(LC_ALL, " + n + ")", [n] { if (!setlocale(LC_ALL, n.c_str())) _exit(96); }, [] { setlocale(LC_ALL, "C"); }}); auto old = std::make_shared<locale_t>(); v.push_back({"uselocale(" + n + ")", [n] { static std::map<string, locale_t> m; locale_t& x = m[n]; if (!x) x = newlocale(LC_ALL_MASK, n.c_str(), nullptr); uselocale(x); }, [] { uselocale(LC_GLOBAL_LOCALE); }}); }
    v.push_back({"a C++ global locale with grouped numbers and other letters", [] { std::locale::global(odd()); }, [] { std::locale::global(std::locale::classic()); }});
    for (const char* z : {"Pacific/Apia", "XXX-14:59:59", "XYZ+12ABC", ""}) v.push_back({string("TZ=") + z, [z] { setenv("TZ", z, 1); tzset(); }, [] { unsetenv("TZ"); tzset(); }});
    for (int e : {ERANGE, EINTR, EILSEQ, -1, INT_MAX}) v.push_back({fmt("errno=%d", e), [e] { errno = e; }, [] { errno = 0; }});
    v.push_back({"errors left in the OpenSSL queue", [] { for (int i = 0; i < 20; i++) ERR_put_error(ERR_LIB_RSA, 0, 4 + i % 3, "x", 1); ERR_put_error(ERR_LIB_PEM, 0, 108, "x", 1); }, [] { ERR_clear_error(); }});
    for (int r : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) v.push_back({fmt("rounding mode %d", r), [r] { fesetround(r); }, [] { fesetround(FE_TONEAREST); }});
    auto str = [](const string& n, std::function<void(std::istream&)> f) { v.push_back({"a stream with " + n, [f] { tweak = f; }, [] { tweak = nullptr; }, true}); };
    str("noskipws", [](std::istream& i) { i >> std::noskipws; }); str("hex and boolalpha", [](std::istream& i) { i >> std::hex >> std::boolalpha; i.setf(std::ios::showbase | std::ios::unitbuf); }); str("a field width", [](std::istream& i) { i.width(3); i.fill('*'); }); str("an odd locale", [](std::istream& i) { i.imbue(odd()); }); str("the bad bit thrown", [](std::istream& i) { i.exceptions(std::ios::badbit); }); str("an earlier end of file", [](std::istream& i) { i.seekg(0, std::ios::end); i.get(); i.clear(); i.seekg(0); });
    str("a tied output", [](std::istream& i) { static std::ostringstream o; i.tie(&o); });
    return v;
}
void mc::phases(vector<Phase>& out, bool th) {
    locales(th); envs(th); cases();
    { Phase p; p.name = "environment"; p.split = 1; p.what = fmt("%zu operations (signing, verification, discovery, every parser, codec and canonicalization, with every octet in every place where octets are classified) under each of %zu ambient states: ", cases().size(), envs(th).size()); for (auto& e : envs(th)) p.what += e.name + ", "; p.body = [th](Ctx& c) { const auto& E = envs(th); auto& e = E[(size_t)c.choose((int)E.size())]; size_t i = (size_t)c.choose((int)cases().size()); if (e.stream && !cases()[i].stream) throw Pruned(); env::clock_now = 1700000000; expected(i); e.enter(); string r = cases()[i].run(); e.leave(); compare(c, i, e.name, r); }; out.push_back(p); }
    { Phase p; p.name = "pairs"; p.split = 2; p.what = "every pair of those ambient states together, for the operations on whole messages"; p.body = [th](Ctx& c) { const auto& E = envs(th); int a = c.choose((int)E.size()), b = c.choose((int)E.size()); if (b <= a || (E[(size_t)a].stream && E[(size_t)b].stream)) throw Pruned(); static vector<size_t> W; if (W.empty()) for (size_t i = 0; i < cases().size(); i++) if (cases()[i].stream) W.push_back(i); size_t i = W[(size_t)c.choose((int)W.size())]; env::clock_now = 1700000000; expected(i); E[(size_t)a].enter(); E[(size_t)b].enter(); string r = cases()[i].run(); E[(size_t)b].leave(); E[(size_t)a].leave(); compare(c, i, E[(size_t)a].name + " and " + E[(size_t)b].name, r); }; out.push_back(p); }
}
#else
// ---- what memory held before: every block handed out and the stack below are filled with a pattern
#include <malloc.h>
extern "C" void* __libc_malloc(size_t);
static int heap_fill = -1; static bool heap_vary = false;
static void fill_block(void* p, size_t n) { if (heap_fill < 0 || !p) return; unsigned char* q = (unsigned char*)p; if (!heap_vary) { memset(q, heap_fill, n); return; } for (size_t i = 0; i < n; i++) q[i] = (unsigned char)(heap_fill + 37 * i); }
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); fill_block(p, n); return p; }
__attribute__((noinline)) static void fill_stack(int b, bool vary) { unsigned char a[262144]; if (vary) for (size_t i = 0; i < sizeof a; i++) a[i] = (unsigned char)((size_t)b + 37 * i); else memset(a, b, sizeof a); asm volatile("" : : "r"(a) : "memory"); }
void mc::phases(vector<Phase>& out, bool th) {
    cases(); static vector<int> B = {0x00, 0x01, 0x20, 0x30, 0x3b, 0x3d, 0x41, 0x0a, 0x7f, 0x80, 0xbe, 0xff}; if (th) for (int i = 2; i < 255; i++) if (std::find(B.begin(), B.end(), i) == B.end()) B.push_back(i);
    Phase p; p.name = "memory"; p.split = 2; p.what = fmt("the same %zu operations with every heap block and the stack below filled beforehand with each of %zu octets, constant or varying along the memory, together and apart", cases().size(), B.size());
    p.body = [](Ctx& c) { int b = c.pick(B), how = c.choose(4); size_t i = (size_t)c.choose((int)cases().size()); env::clock_now = 1700000000; expected(i); bool vary = how & 1; int s = how & 2 ? b : 255 - b; heap_vary = vary; heap_fill = b; fill_stack(s, vary); string r = cases()[i].run(); heap_fill = -1; compare(c, i, fmt("heap filled with %02x%s, stack with %02x", b, vary ? "+37i" : "", s), r); }; out.push_back(p);
}
#endif
