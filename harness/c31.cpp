// C31: the logger writes every message once, labelled and in order, exactly when logging is enabled in the build.
#include "smart_dnn/Debugging/Logger.hpp"
#include "mc.hpp"
#include <iomanip>
#include <iostream>
#ifdef ENABLE_LOGGING
static const bool enabled = true;
#else
static const bool enabled = false;
#endif
struct Point { int x, y; }; static std::ostream& operator<<(std::ostream& o, const Point& p) { return o << "(" << p.x << "," << p.y << ")"; }
// prints itself plainly, or leaves a changed format on the stream it is written to: the next message must not notice
struct Fmt { int mode; }; static std::ostream& operator<<(std::ostream& o, const Fmt& f) { switch (f.mode) { case 1: o << std::hex << std::showbase; break; case 2: o << std::scientific << std::setprecision(2); break; case 3: o << std::boolalpha << std::showpos; break; case 4: o << std::left << std::setfill('*'); break; default: break; } return o << 255 << ' ' << 0.1 << ' ' << true << ' ' << std::setw(5) << 'x'; }
struct Capture { std::ostringstream out, err, log; std::streambuf *a, *b, *c; Capture() : a(std::cout.rdbuf(out.rdbuf())), b(std::cerr.rdbuf(err.rdbuf())), c(std::clog.rdbuf(log.rdbuf())) {} ~Capture() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } std::string all() const { return out.str() + err.str() + log.str(); } };
struct Msg { std::string text; std::string what; std::function<void(int)> send; };
static const char* names[] = {"INFO", "WARNING", "ERROR"};
static Logger::Level level(int l) { return l == 0 ? Logger::Level::INFO : l == 1 ? Logger::Level::WARNING : Logger::Level::ERROR; }
static int evaluations = 0; // arguments of the macros are evaluated at most once
template <class V> Msg viaLog(const std::string& what, const V& v) { std::ostringstream o; o << v; return {o.str(), "log(" + what + ")", [v](int l) { Logger::log(level(l), v); }}; }
template <class V> Msg viaMacro(const std::string& what, const V& v) { std::ostringstream o; o << v; return {o.str(), "LOG_*(" + what + ")", [v](int l) { int before = evaluations; auto get = [&]() -> const V& { ++evaluations; return v; }; (void)get; if (l == 0) LOG_INFO(get()); else if (l == 1) LOG_WARNING(get()); else LOG_ERROR(get()); MC_CHECK(evaluations <= before + 1, "a macro evaluates its argument " << evaluations - before << " times"); }}; }
static std::string show(const std::string& s) { return s.size() > 200 ? s.substr(0, 100) + "..." + s.substr(s.size() - 60) : s; }
void explore() {
    bool full = mc::thorough(); std::vector<Msg> ms; auto both = [&](const std::string& w, const auto& v) { ms.push_back(viaLog(w, v)); ms.push_back(viaMacro(w, v)); };
    std::string nul("a\0b", 3); both("plain", std::string("hello world")); both("empty", std::string()); both("percent", std::string("100%s %d\\n")); both("two lines", std::string("first\nsecond")); both("label inside", std::string("[ERROR] [INFO] ]")); both("embedded zero", nul); both("long", std::string(20000, 'x') + "end"); both("bytes", std::string("\xc3\xa9 \x01\x7f\xff\t\r")); both("blank ends", std::string("  padded  ")); both("newline at the end", std::string("line\n"));
    both("int", -42); both("zero", 0); both("unsigned long", 18446744073709551615ul); both("double", 0.1 + 0.2); both("large double", 1e300); both("float", 1.5f); both("char", 'c'); both("bool", true); both("size_t", (size_t)7); both("own type", Point{3, -4}); for (int f = 0; f < 5; ++f) both("formatting type " + std::to_string(f), Fmt{f}); both("pointer to text", (const char*)"literal pointer");
    ms.push_back({"literal text", "log(literal)", [](int l) { Logger::log(level(l), "literal text"); }}); ms.push_back({"literal text", "LOG_*(literal)", [](int l) { if (l == 0) LOG_INFO("literal text"); else if (l == 1) LOG_WARNING("literal text"); else LOG_ERROR("literal text"); }}); ms.push_back({"x = 5", "LOG_*(expression)", [](int l) { int x = 5; (void)x; if (l == 0) LOG_INFO("x = " + std::to_string(x)); else if (l == 1) LOG_WARNING("x = " + std::to_string(x)); else LOG_ERROR("x = " + std::to_string(x)); }});
    std::vector<std::string> prefix(3); // the label may be decorated, but identically for every message
    auto learn = [&] { for (int l = 0; l < 3; ++l) { Capture c; Logger::log(level(l), std::string("calibration")); std::string s = c.all(); if (!enabled) { MC_CHECK(s.empty(), "a build without logging writes '" << s << "'"); continue; } size_t p = s.find("calibration"); MC_CHECK(p != std::string::npos && s.substr(p) == "calibration\n" && s.find('\n') == s.size() - 1, "the message 'calibration' is written as '" << s << "'"); prefix[l] = s.substr(0, p); for (int k = 0; k < 3; ++k) MC_CHECK((prefix[l].find(names[k]) != std::string::npos) == (k == l), "the level " << names[l] << " is labelled '" << prefix[l] << "'"); } };
    auto sequence = [&](const std::vector<std::pair<int, int>>& w) { // (level, message)
        std::string want, said; { Capture c; for (auto& x : w) { MC_TRAIL(names[x.first] << " " << ms[x.second].what); ms[x.second].send(x.first); if (enabled) want += prefix[x.first] + ms[x.second].text + "\n"; said += std::string(said.empty() ? "" : ", ") + names[x.first] + " " + ms[x.second].what; std::string got = c.all(); MC_CHECK(got == want, "after " << said << " the output is '" << show(got) << "', expected '" << show(want) << "'"); mc::step(); } }
        mc::state(std::hash<std::string>()(want)); mc::outcome(std::hash<std::string>()(want));
    };
    mc::bound("build", enabled ? "logging enabled" : "logging disabled"); int N = (int)ms.size(); mc::bound("messages", std::to_string(N) + " messages (texts, numbers, own types; function and macro) at three levels"); mc::bound("sequences", full ? "all of length 1 and 2, all of length 3 over 12 and length 6 over 4" : "all of length 1 and 2, all of length 3 over 8 and length 5 over 4"); mc::bound("stream settings", "default, hexadecimal, precision 3, boolalpha, scientific");
    for (int a = 0; a < N; ++a) for (int l = 0; l < 3; ++l) mc::run([&] { return std::string(names[l]) + " " + ms[a].what + " and any second message"; }, [&] { learn(); sequence({{l, a}}); for (int b = 0; b < N; ++b) for (int k = 0; k < 3; ++k) sequence({{l, a}, {k, b}}); });
    int M = full ? 36 : 24; for (int i = 0; i < M; ++i) mc::run([&] { return "three messages from " + std::to_string(i); }, [&] { learn(); for (int j = 0; j < M; ++j) for (int k = 0; k < M; ++k) sequence({{i % 3, i / 3}, {j % 3, j / 3}, {k % 3, k / 3}}); });
    int D = full ? 6 : 5, total = 1; for (int d = 0; d < D; ++d) total *= 12; for (int i = 0; i < 12; ++i) mc::run([&] { return "longer sequences from " + std::to_string(i); }, [&] { learn(); for (int w = i * (total / 12); w < (i + 1) * (total / 12); ++w) { std::vector<std::pair<int, int>> s; int x = w; for (int d = 0; d < D; ++d) { s.insert(s.begin(), {x % 3, (x / 3 % 4) * 2}); x /= 12; } sequence(s); } });
    for (int s = 0; s < 5; ++s) mc::run([&] { return "stream settings " + std::to_string(s); }, [&] { learn(); std::ios old(nullptr); old.copyfmt(std::cout); if (s == 1) std::cout << std::hex; if (s == 2) std::cout << std::setprecision(3); if (s == 3) std::cout << std::boolalpha; if (s == 4) std::cout << std::scientific; try { for (int a = 0; a < N; ++a) for (int l = 0; l < 3; ++l) sequence({{l, a}}); } catch (...) { std::cout.copyfmt(old); throw; } std::cout.copyfmt(old); });
}
