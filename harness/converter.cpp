// K01, K02, K05: the real converter program, run as a process, on generated and shipped fonts.
#include "fontgen.h"
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iostream>
#include <getopt.h>
#include <malloc.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace vf;
using namespace fontgen;
namespace fs = std::filesystem;

extern int vf_converter_main(int argc, char** argv);

namespace
{
std::string split(int i)
{   // --data: repo;verif
    auto& d = st().data; size_t p = d.find(';');
    return i ? d.substr(p + 1) : d.substr(0, p);
}
std::string readAll(const fs::path& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void writeAll(const fs::path& p, const void* d, size_t n) { std::ofstream f(p, std::ios::binary); f.write(static_cast<const char*>(d), std::streamsize(n)); if (!f) { perror("scratch"); _exit(98); } }

struct Scratch
{
    fs::path dir;
    Scratch() { char t[] = "caseXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(98); } dir = fs::absolute(t); fs::create_directory(dir / "bin"); fs::create_directory(dir / "out"); fs::create_directory(dir / "in"); }
    ~Scratch() { if (getenv("VF_KEEP")) return; std::error_code e; fs::remove_all(dir, e); }
};

struct Result { int rc = -1, sig = 0; std::string out, err; bool clean() const { return sig == 0 && rc != 77; } };

// fork, run fn in the child with its standard streams in pipes
Result spawn(const fs::path& cwd, const std::function<int()>& fn, long fileLimit = -1)
{
    int o[2], e[2];
    if (pipe(o) || pipe(e)) { perror("pipe"); _exit(98); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(98); }
    if (pid == 0)
    {
        dup2(o[1], 1); dup2(e[1], 2);
        for (int fd: { o[0], o[1], e[0], e[1] }) close(fd);
        if (chdir(cwd.c_str())) _exit(98);
        rlimit cpu { 20, 21 }; setrlimit(RLIMIT_CPU, &cpu);
        rlimit core { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
        signal(SIGPROF, SIG_DFL); itimerval off {}; setitimer(ITIMER_PROF, &off, nullptr);
        if (fileLimit >= 0) { signal(SIGXFSZ, SIG_IGN); rlimit l { rlim_t(fileLimit), rlim_t(fileLimit) }; setrlimit(RLIMIT_FSIZE, &l); }
        int rc = fn();
        std::cout.flush(); std::cerr.flush(); fflush(nullptr);
        _exit(rc);
    }
    close(o[1]); close(e[1]);
    Result r; pollfd p[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } }; int open = 2; char buf[8192];
    while (open)
    {
        poll(p, 2, -1);
        for (int i = 0; i < 2; ++i)
            if (p[i].fd >= 0 && p[i].revents)
            {
                ssize_t n = read(p[i].fd, buf, sizeof buf);
                if (n <= 0) { if (n < 0 && errno == EINTR) continue; close(p[i].fd); p[i].fd = -1; --open; }
                else if (auto& s = i ? r.err : r.out; s.size() < 8000000) s.append(buf, size_t(n));
            }
    }
    int ws; while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(ws)) r.sig = WTERMSIG(ws); else r.rc = WEXITSTATUS(ws);
    return r;
}

struct Surroundings { fs::path cwd; std::function<void()> prepare; std::string argv0 {}; bool exec = false; };
Result convert(const Scratch& sc, std::vector<std::string> args, long fileLimit = -1, const Surroundings& around = {})
{
    args.insert(args.begin(), around.argv0.empty() ? (sc.dir / "bin" / "gfx-font-converter").string() : around.argv0);
    std::string cmd; for (auto& a: args) cmd += (cmd.empty() ? "" : " ") + (a.empty() ? "''" : a);
    note("running %s", cmd.c_str()); trace("%s ; ", cmd.c_str());
    cov("converter runs");
    auto r = spawn(around.cwd.empty() ? sc.dir : around.cwd, [&]() noexcept -> int {
        if (around.prepare) around.prepare();
        std::vector<char*> argv; for (auto& a: args) argv.push_back(&a[0]); argv.push_back(nullptr);
        if (around.exec) { setenv("VF_AS_CONVERTER", "1", 1); execvp(argv[0], argv.data()); return 98; }
        optind = 1;
        return vf_converter_main(int(args.size()), argv.data());
    }, fileLimit);
    if (!r.clean())
    {
        std::string kind = "crash";
        if (r.sig == SIGXCPU || r.sig == SIGKILL) kind = "hang";
        auto at = r.err.find("runtime error: "); if (at != std::string::npos) kind = "ubsan";
        at = r.err.find("AddressSanitizer: "); if (at != std::string::npos) kind = "asan-" + r.err.substr(at + 18, r.err.find_first_of(" \n", at + 18) - at - 18);
        fail(kind.c_str(), fmt("the converter ended by signal %d / code %d: %s\n%s", r.sig, r.rc, cmd.c_str(), r.err.substr(0, 1500).c_str()));
    }
    return r;
}

// ---- decoded output
struct Entry { long off, w, h, adv, dx, dy; };
struct Decoded { std::vector<uint8_t> bitmap; std::vector<Entry> glyph; long first = -1, last = -1, height = -1; std::string ident; };

// initialiser lists of the three declarations; tolerant to layout, comments and qualifiers
struct Parser
{
    std::vector<std::string> tok; size_t p = 0;
    struct Node { bool list = false; std::string atom; std::vector<Node> items; };
    explicit Parser(const std::string& s)
    {
        for (size_t i = 0; i < s.size();)
        {
            if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') { if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\n') ++i; ++i; } }
            else if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '*') { i = s.find("*/", i + 2); i = i == std::string::npos ? s.size() : i + 2; }
            else if (s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; }
            else if (isspace(uint8_t(s[i]))) ++i;
            else if (isalnum(uint8_t(s[i])) || s[i] == '_' || s[i] & 0x80) { size_t j = i; while (j < s.size() && (isalnum(uint8_t(s[j])) || s[j] == '_' || s[j] == '\'' || s[j] & 0x80)) ++j; tok.push_back(s.substr(i, j - i)); i = j; }
            else if (s[i] == '-' && i + 1 < s.size() && isdigit(uint8_t(s[i + 1]))) { size_t j = i + 1; while (j < s.size() && isalnum(uint8_t(s[j]))) ++j; tok.push_back(s.substr(i, j - i)); i = j; }
            else if (s[i] == '-') { size_t j = i + 1; while (j < s.size() && isspace(uint8_t(s[j]))) ++j; size_t k = j; while (k < s.size() && isalnum(uint8_t(s[k]))) ++k; tok.push_back("-" + s.substr(j, k - j)); i = k; }
            else tok.push_back(std::string(1, s[i++]));
        }
    }
    Node node()
    {
        Node n;
        if (p < tok.size() && tok[p] == "{")
        {
            n.list = true; ++p;
            while (p < tok.size() && tok[p] != "}") { n.items.push_back(node()); if (p < tok.size() && tok[p] == ",") ++p; else if (p < tok.size() && tok[p] != "}") fail("header-unreadable", "unexpected '" + tok[p] + "' in an initialiser of the generated header"); }
            if (p >= tok.size()) fail("header-unreadable", "the generated header ends inside an initialiser");
            ++p;
        }
        else if (p < tok.size()) n.atom = tok[p++];
        return n;
    }
    static long num(const Node& n)
    {
        char* e = nullptr; long v = strtol(n.atom.c_str(), &e, 0);
        if (n.list || n.atom.empty() || *e) fail("header-unreadable", "number expected instead of '" + n.atom + "' in the generated header");
        return v;
    }
};
Decoded decodeHeader(const std::string& text)
{
    Decoded d; Parser ps(text); bool gotBits = false, gotGlyphs = false, gotFont = false;
    while (ps.p < ps.tok.size())
    {
        std::string ident; bool array = false;
        while (ps.p < ps.tok.size() && ps.tok[ps.p] != "{" && ps.tok[ps.p] != ";")
        {
            auto& t = ps.tok[ps.p];
            if (t == "[") array = true;
            else if (!array && t != "=" && (isalpha(uint8_t(t[0])) || t[0] == '_' || t[0] & 0x80)) ident = t;
            ++ps.p;
        }
        if (ps.p >= ps.tok.size()) break;
        if (ps.tok[ps.p] == ";") { ++ps.p; continue; }
        auto n = ps.node();
        if (ps.p < ps.tok.size() && ps.tok[ps.p] == ";") ++ps.p;
        else fail("header-unreadable", "no ';' after the definition of " + ident);
        if (array && !gotBits && (n.items.empty() || !n.items[0].list)) { gotBits = true; for (auto& i: n.items) { long v = Parser::num(i); if (v < 0 || v > 255) fail("header-unreadable", "bitmap byte out of range"); d.bitmap.push_back(uint8_t(v)); } }
        else if (array)
        {
            gotGlyphs = true;
            for (auto& i: n.items)
            {
                if (i.items.size() != 4 || i.items[1].items.size() != 2 || i.items[3].items.size() != 2) fail("header-unreadable", "a glyph entry has another shape");
                d.glyph.push_back({ Parser::num(i.items[0]), Parser::num(i.items[1].items[0]), Parser::num(i.items[1].items[1]), Parser::num(i.items[2]), Parser::num(i.items[3].items[0]), Parser::num(i.items[3].items[1]) });
            }
        }
        else
        {
            gotFont = true; d.ident = ident;
            if (n.items.size() != 5) fail("header-unreadable", "the font structure has another shape");
            d.first = Parser::num(n.items[2]); d.last = Parser::num(n.items[3]); d.height = Parser::num(n.items[4]);
        }
    }
    if (!gotBits || !gotGlyphs || !gotFont) fail("header-incomplete", fmt("the generated header lacks %s", !gotBits ? "the bitmaps" : !gotGlyphs ? "the glyphs" : "the font"));
    return d;
}
Decoded decodeBinary(const std::string& bits, const std::string& glyphs)
{
    Decoded d; d.bitmap.assign(bits.begin(), bits.end());
    VF_CHECK(glyphs.size() % 7 == 0, "binary-incomplete", "the glyph file has %zu bytes, not a multiple of the 7 of a descriptor", glyphs.size());
    for (size_t i = 0; i < glyphs.size(); i += 7)
    {
        auto g = reinterpret_cast<const uint8_t*>(glyphs.data()) + i;
        d.glyph.push_back({ g[0] | g[1] << 8, g[2], g[3], g[4], int8_t(g[5]), int8_t(g[6]) });
    }
    return d;
}
struct Files { fs::path header, bits, glyphs; };
Files findFiles(const fs::path& dir)
{
    Files f;
    for (auto& e: fs::directory_iterator(dir))
    {
        auto n = e.path().filename().string();
        auto ends = [&](const char* s) { size_t l = strlen(s); return n.size() >= l && n.compare(n.size() - l, l, s) == 0; };
        if (ends(".h")) f.header = e.path(); else if (ends("Bitmaps.bin")) f.bits = e.path(); else if (ends("Glyphs.bin")) f.glyphs = e.path();
    }
    return f;
}

// ---- what the output ought to be
struct Expected
{
    std::vector<int> codes; std::vector<Glyph> glyph; std::vector<bool> judged; double height = 0; bool fits = true; std::string why;
};
std::vector<int> codesOf(bool ascii)
{
    std::vector<int> c; for (int i = 0x20; i <= 0x7e; ++i) c.push_back(i);
    if (!ascii) for (int i = 0xa0; i <= 0xff; ++i) c.push_back(i);
    return c;
}
// false: the font cannot be opened, sized or rendered
bool expectFont(Renderer& ft, const Source& src, int64_t size, int64_t dpi, const CodePage* page, Expected& e)
{
    e.codes = codesOf(!page);
    if (!ft.open(src.file) || !ft.mapped() || !ft.size(size, dpi)) return false;
    size_t total = 0;
    for (int c: e.codes)
    {
        uint32_t cp = page ? page->cp[c] : uint32_t(c);
        bool judged = cp < kUndefined && ft.unicode();
        Glyph g = ft.glyph(judged ? cp : 0);
        if (judged) { auto k = src.known.find(cp); if (k != src.known.end()) g = k->second; }
        if (!g.ok && judged) return false;
        if (judged) { if (!g.fits()) { e.fits = false; e.why = fmt("glyph of code 0x%02x is %dx%d at %d,%d advance %d", c, g.w, g.h, g.left, g.top, g.advance); } }
        if (total > 65535) { e.fits = false; e.why = "bitmaps beyond 64 KiB"; }
        if (!e.fits) return true;
        total += g.bytes();
        e.glyph.push_back(g); e.judged.push_back(judged);
    }
    e.height = ft.height();
    return true;
}
bool allJudged(const Expected& e) { for (auto j: e.judged) if (!j) return false; return true; }

void compare(const Expected& e, const Decoded& d, const char* what)
{
    VF_CHECK(d.glyph.size() == e.codes.size(), "glyph-count", "%s describes %zu glyphs, the character set has %zu", what, d.glyph.size(), e.codes.size());
    size_t at = 0;
    for (size_t i = 0; i < e.codes.size(); ++i)
    {
        auto& g = d.glyph[i]; auto& x = e.glyph[i]; int c = e.codes[i];
        VF_CHECK(size_t(g.off) == at, "offset", "%s: bitmap of code 0x%02x is said to begin at %ld, the preceding ones take %zu bytes", what, c, g.off, at);
        size_t n = (size_t(g.w) * size_t(g.h) + 7) / 8;
        VF_CHECK(at + n <= d.bitmap.size(), "bitmap-short", "%s: bitmap of code 0x%02x ends at %zu of %zu bytes", what, c, at + n, d.bitmap.size());
        if (e.judged[i])
        {
            VF_CHECK(g.w == x.w && g.h == x.h, "size", "%s: code 0x%02x is %ldx%ld instead of %dx%d", what, c, g.w, g.h, x.w, x.h);
            VF_CHECK(g.dx == x.left && g.dy == 1 - x.top, "glyph-offset", "%s: code 0x%02x has offset %ld,%ld instead of %d,%d", what, c, g.dx, g.dy, x.left, 1 - x.top);
            VF_CHECK(g.adv == x.advance || (!x.advanceExact && g.adv == x.advance + 1), "advance", "%s: code 0x%02x advances %ld instead of %d", what, c, g.adv, x.advance);
            for (size_t b = 0; b < x.bits.size(); ++b)
                VF_CHECK(bool(d.bitmap[at + b / 8] >> (7 - b % 8) & 1) == x.bits[b], "pixels", "%s: pixel %zu,%zu of code 0x%02x (%dx%d) is %s", what, b % size_t(x.w), b / size_t(x.w), c, x.w, x.h, x.bits[b] ? "missing" : "set but not in the source");
            for (size_t b = x.bits.size(); b < n * 8; ++b)
                VF_CHECK(!(d.bitmap[at + b / 8] >> (7 - b % 8) & 1), "padding", "%s: padding bit %zu after code 0x%02x is set", what, b, c);
            if (!x.bits.empty()) { cov("glyphs compared"); sigAdd(x.bits.size() ^ uint64_t(x.advance) << 32); }
        }
        at += n;
    }
    VF_CHECK(at == d.bitmap.size(), "bitmap-long", "%s: %zu bitmap bytes follow the last glyph's", what, d.bitmap.size() - at);
    cov("fonts compared");
}
// C++ has no empty arrays: a font without pixels may have one spare zero byte in the header
Decoded withoutPlaceholder(Decoded d)
{
    bool empty = true; for (auto& g: d.glyph) if (g.w && g.h) empty = false;
    if (empty && d.bitmap == std::vector<uint8_t> { 0 }) { d.bitmap.clear(); cov("fonts without pixels"); }
    return d;
}
void compareHeader(const Expected& e, const Decoded& d)
{
    compare(e, withoutPlaceholder(d), "header");
    VF_CHECK(d.first == e.codes.front() && d.last == e.codes.back(), "range", "header range 0x%lx..0x%lx instead of 0x%x..0x%x", d.first, d.last, e.codes.front(), e.codes.back());
    VF_CHECK(d.height >= 0 && d.height <= 255 && std::fabs(double(d.height) - e.height) < 1, "line-height", "header line height %ld, font %g", d.height, e.height);
}

Renderer& renderer() { static Renderer r; return r; }
struct Shipped { std::string name; Bytes file; };
const std::vector<Shipped>& shipped()
{
    static std::vector<Shipped> s;
    if (s.empty())
    {
        std::vector<fs::path> names;
        for (auto& e: fs::directory_iterator(split(1) + "/fonts")) names.push_back(e.path());
        std::sort(names.begin(), names.end());
        for (auto& n: names) { auto t = readAll(n); s.push_back({ n.filename().string(), Bytes(t.begin(), t.end()) }); }
    }
    return s;
}
std::string randCase(Rng& r, std::string s) { for (auto& c: s) if (r.chance(1, 2)) c = char(tolower(c)); return s; }

struct Job
{
    Source src; std::string file; int64_t size = 12, dpi = 141; const CodePage* page = nullptr; bool wild = false, blank = false;
};
// a font and parameters; quiet: almost always representable
Job makeJob(Rng& r, bool wild)
{
    Job j; j.wild = wild;
    if (!r.chance(1, 3)) j.page = &codePages[r.range(0, int64_t(nCodePages) - 1)];
    std::vector<uint32_t> cps;
    for (int c: codesOf(!j.page)) { uint32_t cp = j.page ? j.page->cp[c] : uint32_t(c); if (cp < kUndefined && r.chance(9, 10)) cps.push_back(cp); }
    if (r.chance(1, 4)) for (int i = 0; i < 20; ++i) cps.push_back(uint32_t(r.range(0x20, 0x2fff)));
    if (r.chance(1, 30)) { cps.clear(); j.blank = true; }
    int kind = int(j.blank ? 1 : r.range(0, 2));
    int px = int(wild ? r.range(1, 255) : r.chance(1, 4) ? r.range(1, 90) : r.range(5, 40));
    j.dpi = r.chance(1, 2) ? 72 : r.chance(1, 2) ? int(r.range(20, 400)) : r.pick({ 141, 96, 100, 75, 300, 36 });
    j.size = std::max<int64_t>(1, px * 72 / j.dpi);
    if (kind == 0) { j.src = makeTtf(r, cps, wild); }
    else if (kind == 1) { px = int((j.size * 64 * j.dpi + 36) / 72 + 32) >> 6; if (px < 1) { px = 1; } if (j.blank) for (int c: codesOf(!j.page)) if (uint32_t cp = j.page ? j.page->cp[c] : uint32_t(c); cp < kUndefined) cps.push_back(cp); j.src = makeBdf(r, cps, px, wild, j.blank); }
    else { auto& s = r.pick(shipped()); j.src.file = s.file; j.src.ext = fs::path(s.name).extension().string(); }
    j.file = "Font" + j.src.ext;
    return j;
}
// one documented spelling of an option with its value
std::vector<std::string> spell(Rng& r, const std::vector<std::string>& o)
{
    if (o.size() < 2) return o;
    static const std::map<std::string, std::string> names = { { "-f", "--font" }, { "-s", "--size" }, { "-d", "--dpi" }, { "-e", "--encoding" }, { "-o", "--output" } };
    auto& name = names.at(o[0]);
    switch (r.range(0, 3))
    {
    case 0: return o;
    case 1: cov("joined options"); return { o[0] + o[1] };
    case 2: cov("long options"); return { name, o[1] };
    default: cov("long options with ="); return { name + "=" + o[1] };
    }
}
std::vector<std::string> argsOf(Rng& r, const Job& j, const fs::path& font, const fs::path& out, bool binary, bool freely = false)
{
    std::vector<std::vector<std::string>> g = { { "-f", font.string() } };
    if (j.size != 12 || r.chance(1, 2)) g.push_back({ "-s", std::to_string(j.size) });
    if (j.dpi != 141 || r.chance(1, 2)) g.push_back({ "-d", std::to_string(j.dpi) });
    if (j.page) g.push_back({ "-e", randCase(r, j.page->name) }); else if (r.chance(1, 3)) g.push_back({ "-e", randCase(r, "ASCII") });
    if (!out.empty()) g.push_back({ "-o", out.string() });
    if (binary) g.push_back({ "-b" });
    for (size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[size_t(r.range(0, int64_t(i) - 1))]);
    std::vector<std::string> a; for (auto& x: g) { if (freely) x = spell(r, x); a.insert(a.end(), x.begin(), x.end()); }
    return a;
}
bool said(const Result& r) { return !r.err.empty() || r.out.find("sage") != std::string::npos; }

// what a run without injected faults must give
void judge(const Scratch& sc, const Result& res, bool usable, const Expected& e, bool binary, const fs::path& out)
{
    bool headerTall = !binary && e.height >= 256;
    if (res.rc != 0)
    {
        VF_CHECK(said(res), "silent-failure", "the converter failed (code %d) without a message", res.rc);
        // codes the character set leaves undefined get whatever glyph the font has for 'none': not judged, but it may not fit either
        if (usable && e.fits && !headerTall && allJudged(e)) fail("refused", "a representable font was refused: " + res.err.substr(0, 300));
        cov(usable ? "unrepresentable fonts refused" : "unusable fonts refused");
        return;
    }
    if (!usable) fail("accepted", "success is reported for a font that cannot be opened, sized or rendered");
    if (!e.fits || headerTall) fail("unrepresentable", "success is reported although the output format cannot hold the font: " + (headerTall ? fmt("line height %g", e.height) : e.why));
    auto f = findFiles(out);
    if (binary)
    {
        VF_CHECK(!f.bits.empty() && !f.glyphs.empty(), "no-output", "success is reported but there are no binary files in the output directory");
        compare(e, decodeBinary(readAll(f.bits), readAll(f.glyphs)), "binary");
    }
    else
    {
        VF_CHECK(!f.header.empty(), "no-output", "success is reported but there is no header in the output directory");
        compareHeader(e, decodeHeader(readAll(f.header)));
    }
}

void k01(Rng& r)
{
    Scratch sc; Job j = makeJob(r, r.chance(1, 10));
    auto font = sc.dir / "in" / j.file; writeAll(font, j.src.file.data(), j.src.file.size());
    Expected e; bool usable = expectFont(renderer(), j.src, j.size, j.dpi, j.page, e);
    trace("%s font, %lldpt %lld dpi, %s: ", j.src.known.empty() ? j.src.ext.c_str() : "bitmap", (long long)j.size, (long long)j.dpi, j.page ? j.page->name : "ASCII");
    bool toBin = r.chance(1, 6); auto out = toBin ? sc.dir / "bin" : sc.dir / "out";
    for (bool binary: { false, true })
    {
        auto res = convert(sc, argsOf(r, j, font, toBin ? fs::path() : out, binary));
        judge(sc, res, usable, e, binary, out);
    }
    auto f = findFiles(out);
    if (!f.header.empty() && !f.bits.empty() && !f.glyphs.empty())
    {   // every glyph, also of codes without a code point
        auto a = withoutPlaceholder(decodeHeader(readAll(f.header))); auto b = decodeBinary(readAll(f.bits), readAll(f.glyphs));
        VF_CHECK(a.bitmap == b.bitmap, "outputs-differ", "header and binary output have different bitmaps");
        for (size_t i = 0; i < a.glyph.size(); ++i)
        {
            auto &x = a.glyph[i], &y = b.glyph[i];
            VF_CHECK(x.off == y.off && x.w == y.w && x.h == y.h && x.adv == y.adv && x.dx == y.dx && x.dy == y.dy, "outputs-differ", "header and binary output differ in glyph %zu", i);
        }
        cov("header and binary compared"); nontrivial();
        if (j.page) cov("8-bit character sets");
        cov(!j.src.known.empty() ? "bitmap fonts" : j.src.file.size() > 60000 ? "shipped fonts" : "outline fonts");
    }
}

// the font says its character map is for something else than Unicode, or has none
bool otherCharacterMap(Rng& r, Bytes& b)
{
    auto be = [&](size_t at, int n) { size_t v = 0; while (n--) v = v << 8 | b.at(at++); return v; };
    const std::string text(b.begin(), b.end());
    if (auto at = text.find("CHARSET_REGISTRY \"ISO10646\""); at != std::string::npos && text.compare(0, 9, "STARTFONT") == 0)
    {
        const std::string other = r.pick<std::string>({ "CHARSET_REGISTRY \"ISO8859\" ", "CHARSET_REGISTRY \"Adobe\"   ", "CHARSET_REGISTRY \"DEC\"     ", "XHARSET_REGISTRY \"ISO10646\"" });
        std::copy(other.begin(), other.end(), b.begin() + int64_t(at));
        return true;
    }
    if (b.size() < 12 || (be(0, 4) != 0x00010000 && text.compare(0, 4, "OTTO") != 0)) return false;
    for (size_t i = 0, n = be(4, 2); i < n; ++i)
        if (text.compare(12 + i * 16, 4, "cmap") == 0)
        {
            const size_t at = be(12 + i * 16 + 8, 4);
            if (r.chance(1, 4)) { b.at(12 + i * 16) = 'x'; return true; }       // no such table
            if (r.chance(1, 4)) { b.at(at + 2) = b.at(at + 3) = 0; return true; }       // an empty one
            for (size_t k = 0, maps = be(at + 2, 2); k < maps; ++k)
                { b.at(at + 4 + k * 8) = 0; b.at(at + 5 + k * 8) = uint8_t(r.pick({ 0, 1, 2, 3, 7 })); b.at(at + 6 + k * 8) = 0; b.at(at + 7 + k * 8) = uint8_t(r.pick({ 0, 1, 2, 4, 10 })); }
            return true;
        }
    return false;
}

void k02(Rng& r)
{
    Scratch sc; Job j = makeJob(r, r.chance(1, 2));
    auto font = sc.dir / "in" / j.file;
    bool binary = r.chance(1, 2); auto out = sc.dir / "out";
    Expected e;
    switch (r.range(0, 8))
    {
    case 0:
    {   // no usable font file at all
        int k = int(r.range(0, 5)); fs::path p = font;
        if (k == 4) { p = sc.dir / "in" / "loop.ttf"; fs::create_symlink("loop.ttf", p); } else if (k == 5) p = sc.dir / "in" / std::string(size_t(r.pick({ 256, 1200, 5000 })), 'n'); else
        if (k == 0) p = sc.dir / "in" / "missing.ttf"; else if (k == 1) p = sc.dir / "in"; else if (k == 2) writeAll(font, "", 0); else { Bytes junk(size_t(r.range(1, 3000))); for (auto& b: junk) b = r.byte(); writeAll(font, junk.data(), junk.size()); }
        auto res = convert(sc, argsOf(r, j, p, out, binary));
        VF_CHECK(res.rc != 0, "accepted", "success is reported for a font file that does not exist or is no font");
        VF_CHECK(said(res), "silent-failure", "failure without a message"); cov("missing fonts"); nontrivial(); return;
    }
    case 1: case 2:
    {   // damaged bytes
        auto& b = j.src.file; int k = int(r.range(0, 3));
        if (k == 3 && otherCharacterMap(r, b)) { j.src.known.clear(); cov("fonts with another character map"); break; }
        j.src.known.clear(); if (k == 3) k = 1;
        if (k == 0) b.resize(size_t(r.range(0, int64_t(b.size())))); 
        else for (int64_t n = r.pick({ 1, 3, 30, 300 }); n > 0 && !b.empty(); --n) { size_t at = size_t(k == 1 ? r.range(0, int64_t(b.size()) - 1) : r.range(0, std::min<int64_t>(int64_t(b.size()), 600) - 1)); b[at] = r.chance(1, 2) ? r.byte() : uint8_t(b[at] ^ 1 << r.range(0, 7)); }
        cov("damaged fonts"); break;
    }
    case 3: case 4:
    {   // sizes and resolutions
        auto ext = [&]() -> int64_t { return r.pick<int64_t>({ 0, 1, 2, 30, 60, 100, 127, 128, 200, 255, 256, 300, 1000, 5000, 32767, 65536, 1 << 24, 33554431, 33554432, 67108864, INT_MAX, -1, -12, INT_MIN }); };
        if (r.chance(1, 2)) j.size = ext(); if (r.chance(1, 2)) j.dpi = ext();
        cov("extreme sizes"); break;
    }
    case 5:
    {   // not numbers
        std::string bad = r.pick<std::string>({ "abc", "", "-", "x12", "99999999999999999999", "-99999999999", "4294967296000", "+", "0x", ".5", "\xff" }); bool s = r.chance(1, 2);
        writeAll(font, j.src.file.data(), j.src.file.size());
        std::vector<std::string> a = { "-f", font.string(), "-o", out.string(), s ? "-s" : "-d", bad };
        auto res = convert(sc, a); cov("malformed numbers"); nontrivial();
        if (bad == "0x") return;    // reads as 0
        VF_CHECK(res.rc != 0, "accepted", "success is reported for the number '%s'", bad.c_str()); VF_CHECK(said(res), "silent-failure", "failure without a message"); return;
    }
    case 6:
    {   // character sets
        writeAll(font, j.src.file.data(), j.src.file.size());
        std::string enc = r.pick<std::string>({ "NONSENSE", "", "UTF-8", "UTF-16", "UTF-16BE", "UCS-2", "UTF-32", "SHIFT_JIS", "GB18030", "EUC-JP", "ISO-2022-JP", "BIG5-HKSCS", "UTF-7", "CP932", "JOHAB", "x//TRANSLIT", "ISO-8859-99", "ISO-8859-1\n" });
        std::vector<std::string> a = argsOf(r, j, font, out, false); bool had = false;
        for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "-e") { a[i + 1] = enc; had = true; }
        if (!had) { a.push_back("-e"); a.push_back(enc); }
        auto res = convert(sc, a); cov("other character sets"); nontrivial();
        if (enc == "NONSENSE" || enc == "ISO-8859-99") VF_CHECK(res.rc != 0, "accepted", "success is reported for the unknown character set %s", enc.c_str());
        if (res.rc) { VF_CHECK(said(res), "silent-failure", "failure without a message"); return; }
        auto f = findFiles(out); VF_CHECK(!f.header.empty(), "no-output", "success without output for character set %s", enc.c_str());
        auto d = decodeHeader(readAll(f.header)); VF_CHECK(d.glyph.size() == 191, "glyph-count", "%zu glyphs for character set %s", d.glyph.size(), enc.c_str());
        return;
    }
    case 7:
    {   // destinations
        writeAll(font, j.src.file.data(), j.src.file.size());
        bool usable = expectFont(renderer(), j.src, j.size, j.dpi, j.page, e);
        // names of the files a run without obstacles makes
        auto clean = convert(sc, argsOf(r, j, font, out, binary)); judge(sc, clean, usable, e, binary, out);
        if (clean.rc) return;
        auto f = findFiles(out); std::vector<fs::path> made; for (auto& p: { f.header, f.bits, f.glyphs }) if (!p.empty()) made.push_back(p);
        auto victim = r.pick(made); auto size = fs::file_size(victim);
        int k = int(r.range(0, 3)); long limit = -1; auto o = out; bool mustFail = true;
        if (k == 0) { fs::remove(victim); fs::create_directory(victim); }
        else if (k == 1) { fs::remove(victim); fs::create_symlink("/dev/full", victim); mustFail = size > 0; }
        else if (k == 2) { limit = long(r.range(0, int64_t(size) - 1)); mustFail = size > 0; if (!size) return; for (auto& p: made) fs::remove(p); }
        else
        {
            for (auto& p: made) fs::remove(p);
            mustFail = false;
            switch (r.range(0, 3))
            {
            case 0: o = sc.dir / "nowhere"; break;
            case 1: o = sc.dir / "loop"; fs::create_symlink("loop", o); break;                      // cannot be examined
            case 2: o = sc.dir / std::string(size_t(r.pick({ 256, 300, 5000 })), 'n'); break;       // too long a name
            default: o = font / "below"; break;
            }
        }
        auto res = convert(sc, argsOf(r, j, font, o, binary), limit); cov(k == 3 ? "missing destinations" : "failing destinations"); nontrivial();
        if (res.rc) { VF_CHECK(said(res), "silent-failure", "failure without a message"); return; }
        if (mustFail) fail("lost-output", fmt("success is reported although %s could not be written (%s)", victim.filename().c_str(), k == 0 ? "a directory is in its place" : k == 1 ? "the device is full" : fmt("file size limit %ld", limit).c_str()));
        if (k == 3) { std::error_code ec; bool there = fs::is_directory(o, ec) && !fs::is_empty(o); VF_CHECK(there || !fs::is_empty(sc.dir / "bin"), "no-output", "success without output"); }
        return;
    }
    default:
    {   // command lines
        writeAll(font, j.src.file.data(), j.src.file.size());
        std::vector<std::string> a = argsOf(r, j, font, out, binary);
        int k = int(r.range(0, 3)); bool fontGiven = true;
        if (k == 0) { a = { r.pick<std::string>({ "-h", "-x", "--font", "-f", "-s", "-o", "--", "-" , "-bh"}) }; fontGiven = false; }
        else if (k == 1) { a.clear(); fontGiven = false; }
        else if (k == 2) a.insert(a.begin(), "-q");
        else a.push_back(r.pick<std::string>({ "-e", "-s", "-d", "-o", "-f" }));
        auto res = convert(sc, a); cov("odd command lines"); nontrivial();
        if (res.rc) VF_CHECK(said(res) || !res.out.empty(), "silent-failure", "failure without a message");
        else VF_CHECK(fontGiven || a == std::vector<std::string> { "-h" } || a == std::vector<std::string> { "-bh" }, "accepted", "success is reported without a font file");
        return;
    }
    }
    writeAll(font, j.src.file.data(), j.src.file.size());
    auto res = convert(sc, argsOf(r, j, font, out, binary));
    nontrivial(); sigAdd(uint64_t(res.rc)); sigAdd(j.src.file.size() ^ uint64_t(j.size) << 20 ^ uint64_t(j.dpi) << 40);
    bool plain = j.size >= 1 && j.dpi >= 1;         // other numbers: FreeType substitutes defaults; only cleanliness and completeness are judged
    if (plain)
    {
        bool usable = expectFont(renderer(), j.src, j.size, j.dpi, j.page, e);
        judge(sc, res, usable, e, binary, out);
    }
    else if (res.rc) VF_CHECK(said(res), "silent-failure", "failure without a message");
    else
    {
        auto f = findFiles(out);
        if (binary) { VF_CHECK(!f.bits.empty() && !f.glyphs.empty(), "no-output", "success without output"); decodeBinary(readAll(f.bits), readAll(f.glyphs)); }
        else { VF_CHECK(!f.header.empty(), "no-output", "success without output"); decodeHeader(readAll(f.header)); }
    }
}

// ---- K05
int runTool(const fs::path& cwd, std::vector<std::string> args, std::string& output)
{
    auto r = spawn(cwd, [&]() noexcept -> int { std::vector<char*> argv; for (auto& a: args) argv.push_back(&a[0]); argv.push_back(nullptr); execvp(argv[0], argv.data()); return 127; });
    output = r.out + r.err;
    if (r.rc == 127) { fprintf(stderr, "cannot run %s\n", args[0].c_str()); _exit(98); }
    return r.sig ? 1000 + r.sig : r.rc;
}
const std::vector<std::string>& libObjects()
{
    static std::vector<std::string> objs;
    if (objs.empty())
    {
        auto repo = split(0); std::string log; fs::path d = fs::absolute(fmt("k05lib-%llu", (unsigned long long)st().start)); fs::create_directories(d);
        std::vector<fs::path> src;
        for (auto& sub: { std::string(), std::string("/graphics") }) for (auto& e: fs::directory_iterator(repo + sub)) if (e.path().extension() == ".cpp") src.push_back(e.path());
        for (auto& s: src)
        {
            auto o = (d / (s.stem().string() + ".o")).string();
            if (runTool(d, { "g++", "-std=c++17", "-O1", "-w", "-I" + repo, "-I" + repo + "/graphics", "-c", s.string(), "-o", o }, log)) { fprintf(stderr, "library does not compile: %s\n", log.substr(0, 2000).c_str()); _exit(98); }
            objs.push_back(o);
        }
    }
    return objs;
}
void k05(Rng& r)
{
    auto objs = libObjects();
    Scratch sc; Job j = makeJob(r, false);
    const bool large = r.chance(1, 5);              // line heights up to the limit of the table; the glyphs may be larger than the image
    if (large) { if (j.src.known.empty()) j.size = std::max<int64_t>(1, r.range(60, 220) * 72 / j.dpi); }
    else j.size = std::min<int64_t>(j.size, 25 * 72 / j.dpi + 1);
    if (!j.src.known.empty()) { j.dpi = 72; j.size = j.src.pixelSize; }
    std::string stem = r.pick<std::string>({ "Font", "DejaVuSans-Bold", "My Font", "3D", "a.b.c", "Font(1)", "int", "_x", "Schrift\xc3\xa4", "a+b", "it's", "ALL_CAPS9", "x\"y", "back\\slash", "99", "semi;colon", "Bitmaps" });
    if (r.chance(1, 3)) stem = "Font" + std::to_string(r.range(0, 999));
    j.file = stem + j.src.ext;
    auto font = sc.dir / "in" / j.file; writeAll(font, j.src.file.data(), j.src.file.size());
    Expected e; bool usable = expectFont(renderer(), j.src, j.size, j.dpi, j.page, e);
    const bool binary = r.chance(1, 4);             // the binary files embedded as they are
    auto res = convert(sc, argsOf(r, j, font, sc.dir / "out", binary));
    judge(sc, res, usable, e, binary, sc.dir / "out");
    if (res.rc) return;
    auto f = findFiles(sc.dir / "out"); Decoded d; std::string fontText;
    if (binary)
    {
        fontText = "alignas(2) const unsigned char bits[] = {";
        auto bits = readAll(f.bits), glyphs = readAll(f.glyphs);
        for (uint8_t c: bits) fontText += std::to_string(c) + ",";
        if (bits.empty()) fontText += "0";
        fontText += "};\nconst unsigned char glyphs[] = {";
        for (uint8_t c: glyphs) fontText += std::to_string(c) + ",";
        fontText += fmt("};\nconst GFXfont embeddedFont { { bits, sizeof bits }, { reinterpret_cast<const GFXglyph*>(glyphs), sizeof glyphs / 7 }, 0x20, 0x%x, %d };\n", unsigned(e.codes.back()), int(std::min(255.0, e.height)));
        d.ident = "embeddedFont";
        cov("binary output embedded");
    }
    else
    {
    d = decodeHeader(readAll(f.header));
    bool plainName = true; for (char c: stem) if (!isalnum(uint8_t(c)) && c != '_') plainName = false; if (isdigit(uint8_t(stem[0]))) plainName = false;
    if (plainName)
        VF_CHECK(d.ident == stem + std::to_string(j.size) + "pt" + (j.page ? "8b" : "7b"), "name", "font %s is called %s in the header", stem.c_str(), d.ident.c_str());
    fontText = readAll(f.header);
    }
    writeAll(sc.dir / "font.h", fontText.data(), fontText.size());
    constexpr int W = 704, H = 300;
    std::string prog = fmt(R"(
#include "GFXFontsAdapter.h"
#include "EmbeddedFont.h"
#include "SimpleFrameBuffer.h"
#include "Canvas.h"
#include <cstdio>
#ifndef PROGMEM
#define PROGMEM
#endif
namespace
{
using GFXfont = embedded::fonts::FontDescriptor;
using GFXglyph = embedded::fonts::GlyphDescriptor;
#include "font.h"
}
static SimpleFrameBuffer<%d, %d, 1> fb;
int main(int, char** argv)
{
    embedded::fonts::EmbeddedFont font { %s };
    Canvas canvas(fb);
    for (char** p = argv + 1; *p; ++p)
    {
        char text[64]; unsigned n = 0, v;
        for (const char* h = *p; *h; h += 2) { sscanf(h, "%%2x", &v); text[n++] = char(v); }
        canvas.clear(0); canvas.setColor(1);
        canvas.drawStringAt({ 100, 150 }, std::string_view(text, n), font);
        const Canvas& c = canvas; auto img = c.getImage();
        for (auto b: img) printf("%%02x", b);
        printf("\n");
    }
}
)", W, H, d.ident.c_str());
    writeAll(sc.dir / "prog.cpp", prog.data(), prog.size());
    auto repo = split(0); std::string log;
    std::vector<std::string> cc = { r.chance(3, 4) ? "g++" : "clang++", "-std=c++17", "-O0", "-w", "-I" + repo, "-I" + repo + "/graphics", "prog.cpp", "-o", "prog" };
    cc.insert(cc.end(), objs.begin(), objs.end());
    int rc = runTool(sc.dir, cc, log);
    VF_CHECK(rc == 0, "does-not-compile", "the header generated from '%s' does not compile (%s): %s", j.file.c_str(), cc[0].c_str(), log.substr(0, 1200).c_str());
    if (!binary) cov("headers compiled");
    std::vector<std::string> run = { "./prog" }; std::vector<std::vector<size_t>> texts;
    std::vector<size_t> ok; for (size_t i = 0; i < e.codes.size(); ++i) if (e.judged[i] && e.glyph[i].advanceExact) ok.push_back(i);
    size_t pos = 0;
    while (pos < ok.size())
    {   // every character once, in texts of up to 10
        std::vector<size_t> t; std::string h; size_t n = size_t(r.range(1, 10));
        while (n-- && pos < ok.size()) { t.push_back(ok[pos]); h += fmt("%02x", e.codes[ok[pos]]); ++pos; }
        texts.push_back(t); run.push_back(h);
    }
    rc = runTool(sc.dir, run, log);
    VF_CHECK(rc == 0, "program-fails", "the program using the header fails (%d): %s", rc, log.substr(0, 500).c_str());
    std::stringstream lines(log); std::string line;
    for (auto& t: texts)
    {
        std::getline(lines, line);
        // 1 bit per pixel: compare as a set of lit pixels, whatever the bit order, by rendering the expectation alike
        std::vector<bool> want(size_t(W) * H);
        int pen = 100;
        for (auto i: t)
        {
            auto& g = e.glyph[i];
            for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) if (g.bits[size_t(y * g.w + x)])
            {
                int X = pen + g.left + x, Y = 150 + 1 - g.top + y;
                if (X >= 0 && X < W && Y >= 0 && Y < H) want[size_t(Y) * W + size_t(X)] = true;
            }
            pen += g.advance;
        }
        VF_CHECK(line.size() == (size_t(W) * H + 7) / 8 * 2, "program-fails", "image of %zu digits", line.size());
        if (large) cov("texts of large characters");
        size_t lit = 0;
        for (size_t b = 0; b < want.size(); b += 8)
        {
            unsigned v; sscanf(line.substr(b / 4, 2).c_str(), "%2x", &v);
            for (size_t k = 0; k < 8 && b + k < want.size(); ++k)
            {
                bool got = v >> (7 - k) & 1;
                if (want[b + k]) ++lit;
                VF_CHECK(got == want[b + k], "image", "pixel %zu,%zu of the text beginning with code 0x%02x is %s", (b + k) % W, (b + k) / W, e.codes[t[0]], got ? "set but not in the source font" : "missing");
            }
        }
        if (lit) { cov("texts compared"); cov("pixels compared", lit); nontrivial(); sigAdd(lit); }
    }
}
// ---- K06
std::map<std::string, std::string> snapshot(const fs::path& dir)
{
    std::map<std::string, std::string> m;
    for (auto& e: fs::recursive_directory_iterator(dir))
        m[e.path().lexically_relative(dir).string()] = e.is_symlink() ? "-> " + fs::read_symlink(e.path()).string() : e.is_regular_file() ? readAll(e.path()) : "(directory)";
    return m;
}
// memory the program will find in use before: nothing of it may show in the output
__attribute__((noinline)) void dirtyStack(int v) { volatile char mem[200000]; for (auto& b: mem) b = char(v); }
void k06(Rng& r)
{
    Scratch sc; Job j = makeJob(r, r.chance(1, 20));
    auto font = sc.dir / "in" / j.file; writeAll(font, j.src.file.data(), j.src.file.size());
    bool binary = r.chance(1, 2);
    std::string other = "not the converter's";
    writeAll(sc.dir / "in" / "notes.txt", other.data(), other.size()); writeAll(sc.dir / "out" / "other.h", other.data(), other.size()); writeAll(sc.dir / "out" / "Bitmaps.txt", other.data(), other.size());
    fs::create_directory(sc.dir / "cwd"); fs::create_directory_symlink(sc.dir / "in", sc.dir / "link");
    // other fonts of the same name in other directories
    auto decoys = [&] {
        auto d = makeJob(r, false);
        for (auto where: { "cwd", "out", "bin" }) if (r.chance(1, 2)) { writeAll(sc.dir / where / j.file, d.src.file.data(), d.src.file.size()); cov("fonts of the same name elsewhere"); }
    };
    const bool early = r.chance(1, 3);
    if (early) decoys();
    auto begin = snapshot(sc.dir);
    Rng plain; plain.s = 1;
    const int fillA = int(r.range(0, 255)), fillB = fillA ^ int(r.range(1, 255));
    auto first = convert(sc, argsOf(plain, j, font, sc.dir / "out", binary), -1, { sc.dir / "cwd", [&] { dirtyStack(fillA); mallopt(M_PERTURB, fillA); } });
    auto made = snapshot(sc.dir);
    std::map<std::string, std::string> outputs;
    for (auto& [n, c]: made)
    {
        if (n.rfind("out/", 0) != 0 || begin.count(n)) continue;
        outputs[n] = c;
    }
    if (first.rc == 0) VF_CHECK(outputs.size() == (binary ? 2u : 1u), "files", "success with %zu files in the output directory", outputs.size());
    auto untouched = [&](const std::map<std::string, std::string>& now, const std::map<std::string, std::string>& was, const char* when) {
        for (auto& [n, c]: was) if (!outputs.count(n)) { auto it = now.find(n); VF_CHECK(it != now.end() && it->second == c, "other-file", "%s: %s is %s", when, n.c_str(), it == now.end() ? "gone" : "changed"); }
        for (auto& [n, c]: now) VF_CHECK(was.count(n) || outputs.count(n), "other-file", "%s: %s appeared", when, n.c_str());
    };
    untouched(made, begin, "first run");
    if (!early && r.chance(1, 2)) decoys();
    int again = int(r.range(1, 3));
    for (int k = 0; k < again; ++k)
    {
        std::string how;
        // what lies in the way
        int before = int(r.range(0, 3));
        for (auto& [n, c]: outputs)
        {
            if (before == 0) { fs::remove(sc.dir / n); how += "no old file "; }
            else if (before == 1) { std::string junk(c.size() + size_t(r.range(1, 5000)), char(r.byte())); writeAll(sc.dir / n, junk.data(), junk.size()); how += "longer old file "; }
            else if (before == 2) { std::string junk(size_t(r.range(0, int64_t(c.size()))), '\n'); writeAll(sc.dir / n, junk.data(), junk.size()); how += "shorter old file "; }
        }
        fs::path cwd = sc.dir / "cwd", f = font, o = sc.dir / "out";
        switch (r.range(0, 5))
        {
        case 0: cwd = sc.dir / "in"; f = j.file; how += "font in the working directory "; break;
        case 1: cwd = sc.dir / "in"; f = "./" + j.file; o = "../out"; how += "relative paths "; break;
        case 2: f = "../in/" + j.file; o = "../out/"; how += "relative paths "; break;
        case 3: f = sc.dir / "link" / j.file; how += "font behind a link "; break;
        case 4: cwd = sc.dir / "out"; o = "."; how += "output into the working directory "; break;
        default: break;
        }
        std::vector<std::pair<std::string, std::string>> env;
        if (r.chance(1, 2)) env.push_back({ r.pick<std::string>({ "LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE" }), r.pick<std::string>({ "C", "C.utf8", "de_DE.UTF-8", "tr_TR.UTF-8", "" }) });
        if (r.chance(1, 3)) env.push_back({ "FREETYPE_PROPERTIES", r.pick<std::string>({ "truetype:interpreter-version=40", "truetype:interpreter-version=35", "" }) });
        if (r.chance(1, 3)) env.push_back({ r.pick<std::string>({ "TZ", "HOME", "TMPDIR", "POSIXLY_CORRECT", "COLUMNS", "PWD" }), r.pick<std::string>({ "1", "/nowhere", "UTC+5" }) });
        for (auto& [n, v]: env) how += n + "=" + v + " ";
        auto args = argsOf(r, j, f, o, binary, true);
        mode_t mask = r.chance(1, 3) ? 077 : 022;
        auto was = snapshot(sc.dir);
        auto res = convert(sc, args, -1, { cwd, [&] { for (auto& [n, v]: env) setenv(n.c_str(), v.c_str(), 1); umask(mask); dirtyStack(fillB); mallopt(M_PERTURB, fillB); } });
        trace("[%s] ", how.c_str());
        VF_CHECK(res.rc == first.rc, "outcome-differs", "the same conversion ended with code %d, before with %d [%s]: %s", res.rc, first.rc, how.c_str(), res.err.substr(0, 300).c_str());
        auto now = snapshot(sc.dir);
        untouched(now, was, how.c_str());
        if (first.rc == 0)
            for (auto& [n, c]: outputs)
            {
                auto it = now.find(n);
                VF_CHECK(it != now.end(), "outcome-differs", "%s was not written again [%s]", n.c_str(), how.c_str());
                size_t at = 0; while (at < c.size() && at < it->second.size() && c[at] == it->second[at]) ++at;
                VF_CHECK(it->second == c, "output-differs", "the same conversion gave another %s (%zu bytes, before %zu, from byte %zu on) [%s]", n.c_str(), it->second.size(), c.size(), at, how.c_str());
                cov("outputs compared"); cov("bytes compared", c.size());
            }
        else cov("refusals compared");
        cov("repeated conversions"); sigAdd(how);
        if (before == 1) cov("longer files overwritten");
        if (!env.empty()) cov("other environments");
    }
#ifdef VF_MEMCHECK
    if (r.chance(1, 12) && first.rc == 0)
    {   // every byte written must come from something that was computed
        for (auto& [n, c]: outputs) fs::remove(sc.dir / n);
        auto args = argsOf(plain, j, font, sc.dir / "out", binary);
        args.insert(args.begin(), { "valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=no", fs::read_symlink("/proc/self/exe").string(), "--as-converter" });
        auto res = spawn(sc.dir, [&]() noexcept -> int { rlimit cpu { 300, 301 }; setrlimit(RLIMIT_CPU, &cpu); std::vector<char*> argv; for (auto& a: args) argv.push_back(&a[0]); argv.push_back(nullptr); execvp(argv[0], argv.data()); return 127; });
        if (res.rc == 127) { fprintf(stderr, "cannot run valgrind\n"); _exit(98); }
        VF_CHECK(res.rc != 88, "undefined-data", "memcheck reports: %s", res.err.substr(0, 1500).c_str());
        VF_CHECK(res.rc == 0 && res.sig == 0, "outcome-differs", "under memcheck the conversion ended with code %d signal %d: %s", res.rc, res.sig, res.err.substr(0, 500).c_str());
        auto now = snapshot(sc.dir);
        for (auto& [n, c]: outputs) VF_CHECK(now.count(n) && now[n] == c, "output-differs", "%s differs under memcheck", n.c_str());
        cov("runs under memcheck");
    }
#endif
    if (first.rc == 0) nontrivial();
    cov(first.rc == 0 ? "conversions" : "refused conversions");
}

// ---- K07
void k07(Rng& r)
{
    Scratch sc; Job j = makeJob(r, r.chance(1, 20));
    // the defaults often enough
    if (r.chance(1, 2)) { if (r.chance(1, 2)) j.size = 12; if (r.chance(1, 2)) j.dpi = 141; if (r.chance(1, 3)) j.page = nullptr; }
    const bool outline = j.src.known.empty();
    auto font = sc.dir / "in" / j.file; writeAll(font, j.src.file.data(), j.src.file.size());
    fs::create_directory(sc.dir / "cwd"); fs::create_directory_symlink(sc.dir / "out", sc.dir / "outlink");
    Expected e; bool usable = expectFont(renderer(), j.src, j.size, j.dpi, j.page, e);
    bool binary = r.chance(1, 3);
    // where the program is and how it is started
    Surroundings around; around.cwd = sc.dir / "cwd";
    const fs::path bin = sc.dir / "bin";
    int start = int(r.range(0, 7));
    switch (start)
    {
    case 0: around.cwd = sc.dir; around.argv0 = "bin/gfx-font-converter"; break;
    case 1: around.cwd = bin; around.argv0 = "./gfx-font-converter"; break;
    case 2: around.argv0 = "../bin/gfx-font-converter"; break;
    case 3: around.argv0 = "gfx-font-converter"; around.exec = true; break;
    default: break;
    }
    if (around.exec)
    {   // started by its bare name, found in the PATH: a file of its own
        auto self = fs::read_symlink("/proc/self/exe"); std::error_code ec;
        fs::create_hard_link(self, bin / "gfx-font-converter", ec);
        if (ec) fs::copy_file(self, bin / "gfx-font-converter");
        around.prepare = [&] { setenv("PATH", (bin.string() + ":/usr/bin:/bin").c_str(), 1); };
        cov("started by the bare name");
    }
    else if (start <= 2) cov("started by a relative path");
    const bool toBin = r.chance(1, 3);
    fs::path out = toBin ? bin : sc.dir / "out", o = toBin ? fs::path() : out, f = font;
    if (!toBin && r.chance(1, 4)) { o = r.pick<fs::path>({ fs::relative(out, around.cwd), sc.dir / "outlink", out / "", out / ".", sc.dir / "in" / ".." / "out" }); }
    if (r.chance(1, 4)) f = fs::relative(font, around.cwd);
    auto args = argsOf(r, j, f, o, binary, true);
    auto before = snapshot(sc.dir);
    auto given = [&](const char* a, const char* b) { for (auto& x: args) if (x.rfind(a, 0) == 0 || x.rfind(b, 0) == 0) return true; return false; };
    if (r.chance(1, 12))
    {   // help: explains, converts nothing
        args.insert(args.begin() + r.range(0, 1) * int64_t(args.size()), "-h");
        auto res = convert(sc, args, -1, around); cov("help");
        auto now = snapshot(sc.dir);
        VF_CHECK((res.out + res.err).find("sage") != std::string::npos, "no-help", "-h prints no usage: %s", (res.out + res.err).substr(0, 200).c_str());
        VF_CHECK(now == before, "help-converts", "-h changed files");
        nontrivial(); return;
    }
    auto res = convert(sc, args, -1, around);
    if (res.rc == 98) { fprintf(stderr, "cannot run the converter\n"); _exit(98); }
    auto now = snapshot(sc.dir);
    const std::string prefix = (toBin ? "bin/" : "out/");
    size_t made = 0;
    for (auto& [n, c]: now) if (!before.count(n)) { VF_CHECK(n.rfind(prefix, 0) == 0, "elsewhere", "%s was written, the output belongs into %s", n.c_str(), prefix.c_str()); ++made; }
    if (res.rc == 0) VF_CHECK(made == (binary ? 2u : 1u), "files", "success with %zu files in %s", made, prefix.c_str());
    judge(sc, res, usable, e, binary, out);
    if (res.rc) { cov("refused"); return; }
    if (!outline || j.blank) cov("bitmap fonts");
    if (!given("-s", "--size")) cov("default size");
    if (!given("-d", "--dpi")) cov("default resolution");
    if (!given("-e", "--encoding")) cov("default character set");
    if (toBin) cov("default directory");
    cov(binary ? "binary output" : "default format");
    nontrivial(); sigAdd(std::to_string(args.size()) + args[0].substr(0, 3) + std::to_string(start)); sigAdd(uint64_t(j.size) << 20 ^ uint64_t(j.dpi) << 40);
}

}

int main(int argc, char** argv)
{
    if (getenv("VF_AS_CONVERTER")) { optind = 1; int rc = vf_converter_main(argc, argv); std::cout.flush(); std::cerr.flush(); fflush(nullptr); _exit(rc); }
    if (argc > 1 && !strcmp(argv[1], "--as-converter")) { optind = 1; std::vector<char*> a { argv[0] }; a.insert(a.end(), argv + 2, argv + argc); a.push_back(nullptr); return vf_converter_main(argc - 1, a.data()); }
    return run(argc, argv, [] {
        auto& r = rng();
        if (st().prop == "K01") k01(r); else if (st().prop == "K02") k02(r); else if (st().prop == "K06") k06(r); else if (st().prop == "K07") k07(r); else k05(r);
    });
}
