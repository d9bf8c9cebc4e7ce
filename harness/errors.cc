#include "oracle.hh"
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
using std::string; using std::vector; using std::map;
// restricted Damerau-Levenshtein, full table, no pruning, one word at a time
int EModel::distance(const L16 &w, const L16 &q) const {
    size_t R = w.size(), C = q.size(); vector<vector<int>> t(R + 1, vector<int>(C + 1));
    int st = C >= limit ? start : ins;
    for(size_t c = 0; c <= C; c++) t[0][c] = (int)c * ins;
    for(size_t i = 1; i <= R; i++) { t[i][0] = t[i - 1][0] + st; for(size_t c = 1; c <= C; c++) {
        int b = t[i][c - 1] + ins;
        b = std::min(b, t[i - 1][c] + (c == C ? enddel : del));
        b = std::min(b, t[i - 1][c - 1] + sub(q[c - 1], w[i - 1]));
        if(i > 1 && c > 1 && q[c - 1] == w[i - 2] && q[c - 2] == w[i - 1]) b = std::min(b, t[i - 2][c - 2] + trans);
        t[i][c] = b; } }
    return t[R][C];
}
static int err(Rng &r) { int k = r.range(0, 5); return k == 0 ? 0 : k == 1 ? r.range(1, 5) : k == 2 ? 100 : k == 3 ? r.range(1, 300) : k == 4 ? 30 : r.range(300, 20000); }
void randErrors(Rng &r, const Alphabet &a, ErrorValues &e, EModel &m) {
    if(r.chance(70)) { int v = err(r); e.setInsertionError(v); m.ins = v; note("ins %d", v); }
    if(r.chance(70)) { int v = err(r); e.setDeletionError(v); m.del = v; note("del %d", v); }
    if(r.chance(60)) { int v = err(r); e.setEndDeletionError(v); m.enddel = v; note("enddel %d", v); }
    if(r.chance(60)) { int v = err(r); e.setStartInsertionError(v); m.start = v; note("start %d", v); }
    if(r.chance(70)) { int v = err(r); e.setTransposeError(v); m.trans = v; note("trans %d", v); }
    if(r.chance(40)) { size_t v = r.below(7); e.setSubstringStartLimit(v); m.limit = v; note("substring limit %zu", v); }
    if(r.chance(15)) { e.setSubstringMode(); m.start = 15; m.enddel = 15; m.limit = 3; note("substring mode"); }
    for(int k = r.range(0, 4); k > 0; k--) { uint16_t x = r.pick(a.sym)[0], y = r.pick(a.sym)[0]; int v = err(r); e.setError(Letter(x), Letter(y), v); if(x != y) m.pairs[{std::min(x, y), std::max(x, y)}] = v; note("pair %x %x %d", x, y, v); }
    if(r.chance(30)) { L16 g; for(auto &s : a.sym) if(s.size() == 1 && !m.group.count(s[0]) && r.chance(50)) g.push_back(s[0]); int v = err(r); note("group %s %d", show(g).c_str(), v); e.setGroupError(mk(g), v); for(auto c : g) m.group[c] = (int)m.gerr.size(); m.gerr.push_back(v); }
}
void mutate(Rng &r, const Alphabet &a, L16 &w) {
    size_t at = r.below(w.size() + 1); const L16 &s = r.pick(a.sym);
    switch(r.range(0, 4)) {
    case 0: w.insert(w.begin() + at, s.begin(), s.end()); break;
    case 1: if(at < w.size()) w.erase(w.begin() + at); break;
    case 2: if(at < w.size()) w[at] = s[0]; break;
    case 3: if(at + 1 < w.size()) std::swap(w[at], w[at + 1]); break;
    default: w.insert(w.end(), s.begin(), s.end()); break;
    }
    if(!goodword(w)) w = randWord(r, a, 1, 4);
}
static const uint16_t edges[] = {0, 1, ' ', 'a', 'b', 'c', 'k', 'z', '0', '9', 0x7f, 0x80, 0xff, 0x100, 0x101, 0x1fd, 0x1fe, 0x1ff, 0x200, 0x201, 0x202, 0x2ff, 0x300, 0x3ff, 0x400, 0x3b1, 0x7ff, 0x1000, 0x7fff, 0x8000, 0x8001, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0xff61};
static uint16_t letter(Rng &r) { return r.chance(85) ? edges[r.below(sizeof edges / sizeof *edges)] : (uint16_t)r.below(65536); }
static void compare(ErrorValues &e, const EModel &m, Rng &r, const vector<uint16_t> &ls, const char *what) {
    for(uint16_t x : ls) for(uint16_t y : ls) CHECK(e.getSubstituteError(Letter(x), Letter(y)) == m.sub(x, y), "%s: error between %x and %x is %d, expected %d", what, x, y, e.getSubstituteError(Letter(x), Letter(y)), m.sub(x, y));
    for(int i = 0; i < 300; i++) { uint16_t x = r.chance(50) ? r.pick(ls) : (uint16_t)r.below(65536), y = (uint16_t)r.below(r.chance(50) ? 0x240 : 65536); CHECK(e.getSubstituteError(Letter(x), Letter(y)) == m.sub(x, y) && e.getSubstituteError(Letter(y), Letter(x)) == m.sub(x, y), "%s: error between %x and %x is %d/%d, expected %d", what, x, y, e.getSubstituteError(Letter(x), Letter(y)), e.getSubstituteError(Letter(y), Letter(x)), m.sub(x, y)); }
    for(uint16_t x : ls) CHECK(e.isInGroup(Letter(x)) == (m.group.count(x) > 0), "%s: group membership of %x is %d", what, x, e.isInGroup(Letter(x)));
}
static L16 groupWord(Rng &r, bool fresh, const EModel &m) {
    L16 g;
    for(int n = r.range(0, 7); n > 0; n--) {
        uint16_t c = letter(r);
        if(c == 0 || isws(c)) continue;
        if(c >= 0xd800 && c < 0xe000) { if(!fresh || (!m.group.count(0xd801) && !m.group.count(0xdc02))) { g.push_back(0xd801); g.push_back(0xdc02); } continue; }
        if(fresh && m.group.count(c)) continue;
        g.push_back(c); if(r.chance(5)) g.push_back(c);
    }
    return g;
}
static void errorOps(Rng &r, bool groupsOnly) {
    ErrorValues e, other; EModel m, none; vector<uint16_t> ls(edges, edges + sizeof edges / sizeof *edges);
    for(int i = 0; i < 4; i++) ls.push_back((uint16_t)r.below(65536));
    ls.push_back(0xd801); ls.push_back(0xdc02);
    int ops = r.range(1, 14);
    for(int o = 0; o < ops; o++) {
        int k = r.range(0, 9);
        if(k < 4 - 2 * groupsOnly) { uint16_t x = letter(r), y = letter(r); int v = r.chance(10) ? 0 : r.range(0, 100000); note("setError %x %x %d", x, y, v); e.setError(Letter(x), Letter(y), v); if(x != y) m.pairs[{std::min(x, y), std::max(x, y)}] = v; ls.push_back(x); ls.push_back(y); }
        else if(k < 9) {
            bool fresh = r.chance(60); L16 g = groupWord(r, fresh, m); bool clash = false; for(auto c : g) clash |= m.group.count(c) > 0;
            if(!clash && groupsOnly && !g.empty() && !m.group.empty() && r.chance(40)) { uint16_t c = m.group.begin()->first; if(c < 0xd800 || c > 0xdfff) { g.insert(g.begin() + (goodword(g) && r.chance(60) ? g.size() : 0), c); clash = true; } }
            int v = r.range(0, 5000); bool threw = false; note("setGroupError %s %d", show(g).c_str(), v);
            try { e.setGroupError(mk(g), v); } catch(std::exception &) { threw = true; }
            CHECK(threw == clash, "group %s %s", show(g).c_str(), threw ? "refused though its letters are new" : "accepted though a letter already has a group");
            if(!threw) { for(auto c : g) m.group[c] = (int)m.gerr.size(); m.gerr.push_back(v); }
            for(auto c : g) ls.push_back(c);
            if(clash) nontrivial++;
        } else { note("clearErrors"); e.clearErrors(); m = EModel(); }
        if(r.chance(50) || o == ops - 1) compare(e, m, r, ls, "settings");
    }
    if(!groupsOnly) nontrivial++;
    if(r.chance(20)) compare(other, none, r, ls, "another object");
    if(r.chance(15)) for(int x = 0; x < 530; x++) for(int y = 0; y < 530; y++) if(e.getSubstituteError(Letter((uint16_t)x), Letter((uint16_t)y)) != m.sub((uint16_t)x, (uint16_t)y)) fail("error between %x and %x is %d, expected %d", x, y, e.getSubstituteError(Letter((uint16_t)x), Letter((uint16_t)y)), m.sub((uint16_t)x, (uint16_t)y));
}
void caseC11(Rng &r) { errorOps(r, false); }
void caseC22(Rng &r) { errorOps(r, true); }

static void addPair(EModel &m, uint16_t x, uint16_t y, int v) { m.pairs[{std::min(x, y), std::max(x, y)}] = v; }
static L16 row(const char *s) { L16 w; get16(s, w); return w; }
static void keyboard(EModel &m) {
    vector<L16> k = {row("1234567890+"), row("qwertyuiop\xc3\xa5"), row("asdfghjkl\xc3\xb6\xc3\xa4'"), row("zxcvbnm,.-")};
    for(size_t i = 0; i < 4; i++) for(size_t j = 0; j < k[i].size(); j++) {
        if(j + 1 < k[i].size()) addPair(m, k[i][j], k[i][j + 1], 30);
        if(i < 3) { if(j < k[i + 1].size()) addPair(m, k[i][j], k[i + 1][j], 30); if(j > 0 && j - 1 < k[i + 1].size()) addPair(m, k[i][j], k[i + 1][j - 1], 30); }
    }
}
static void numpad(EModel &m) {
    static const char *keys[3][3] = {{"", "abc", "def"}, {"ghi", "jkl", "mno"}, {"pqrs", "tuv", "wxyz"}};
    for(int y = 0; y < 3; y++) for(int x = 0; x < 3; x++) { uint16_t d = (uint16_t)('1' + 3 * y + x);
        for(int v = 0; v < 3; v++) for(int u = 0; u < 3; u++) { int dist = abs(u - x) + abs(v - y); if(dist > 1) continue; for(const char *c = keys[v][u]; *c; c++) addPair(m, d, (uint16_t)*c, dist == 0 ? 0 : 50); } }
}
static bool accents(EModel &m, const vector<L16> &lines, int from = 0) { (void)from; for(auto &l : lines) { if(l.empty()) continue; for(auto c : l) if(m.group.count(c)) return false; for(auto c : l) m.group[c] = (int)m.gerr.size(); m.gerr.push_back(30); } return true; }
static string tmpdir() { char d[] = "/tmp/vhXXXXXX"; if(!mkdtemp(d)) fail("no scratch directory"); return d; }
static void scan(ErrorValues &e, const EModel &m, Rng &r) {
    std::set<uint16_t> ls; for(int c = 0; c < 0x210; c++) ls.insert((uint16_t)c);
    for(auto &g : m.group) ls.insert(g.first);
    for(auto &p : m.pairs) { ls.insert(p.first.first); ls.insert(p.first.second); }
    for(int i = 0; i < 20; i++) ls.insert((uint16_t)r.below(65536));
    for(auto x : ls) for(auto y : ls) { int g = e.getSubstituteError(Letter(x), Letter(y)); if(g != m.sub(x, y)) fail("error between %x and %x is %d, expected %d", x, y, g, m.sub(x, y)); }
    for(auto x : ls) CHECK(e.isInGroup(Letter(x)) == (m.group.count(x) > 0), "group membership of %x", x);
}
void caseC12(Rng &r) {
    string d = tmpdir(); ErrorValues e; EModel m; vector<L16> files[2]; const char *names[2] = {"latinAccentedLetterGroups.txt", "greekAccentedLetterGroups.txt"};
    std::set<uint16_t> used; bool miss[2] = {r.chance(10), r.chance(10)};
    for(int f = 0; f < 2; f++) {
        string txt; int n = r.range(0, 8);
        for(int i = 0; i < n; i++) {
            L16 l; int len = r.chance(10) ? r.range(60, 300) : r.range(0, 9);
            for(int k = 0; k < len; k++) { uint16_t c = (uint16_t)(r.chance(40) ? r.range('a', 'z') : r.range(0x80, r.chance(50) ? 0x250 : 0x2000)); L16 t{c}; t = lower(t); if(t[0] < 33 || used.count(t[0])) continue; used.insert(t[0]); l.push_back(t[0]); }
            if(l.empty() && r.chance(70)) continue;
            files[f].push_back(l); txt += to8(l); if(i + 1 < n || r.chance(60)) txt += "\n";
        }
        if(!miss[f]) { std::ofstream o(d + "/" + names[f]); o << txt; }
        note("data file %d %s: %s", f, miss[f] ? "missing" : "present", esc(txt).c_str());
    }
    string env = d + (r.chance(50) ? "/" : "");
    setenv("COLUMBUS_DATADIR", env.c_str(), 1);
    int ops = r.range(1, 3); bool dead = false;
    for(int o = 0; o < ops && !dead; o++) {
        int k = r.range(0, 5); bool threw = false, must = false;
        note("preset %d", k);
        try { switch(k) {
            case 0: keyboard(m); e.addKeyboardErrors(); break;
            case 1: numpad(m); e.addNumberpadErrors(); break;
            case 2: must = miss[0] || !accents(m, files[0]); e.addAccents(latinAccentGroup); break;
            case 3: must = miss[1] || !accents(m, files[1]); e.addAccents(greekAccentGroup); break;
            case 4: must = miss[0] || !accents(m, files[0]) || miss[1] || !accents(m, files[1]); if(!must) keyboard(m); e.addStandardErrors(); break;
            default: m = EModel(); e.clearErrors(); break;
        } } catch(std::exception &) { threw = true; }
        if(threw != must) { string c = "rm -rf " + d; if(system(c.c_str())) {} fail("preset %d %s", k, threw ? "failed" : "reported no failure though its data file is missing or overlaps"); }
        if(k >= 2 && k <= 4 && (k == 4 || must)) { }
        if(must && k == 4 && !miss[0] && miss[1]) { /* the first file was taken over before the second was missed */ }
        if(must) dead = true;        // what a failed preset leaves is not specified
    }
    for(const char *n : names) unlink((d + "/" + n).c_str());
    rmdir(d.c_str());
    if(!dead) { scan(e, m, r); nontrivial++; }
    unsetenv("COLUMBUS_DATADIR");
    if(r.chance(10)) { setenv("COLUMBUS_DATADIR", r.chance(50) ? "" : "/nonexistent-dir", 1); ErrorValues f; bool t = false; try { f.addAccents(latinAccentGroup); } catch(std::exception &) { t = true; } CHECK(t, "missing data file not reported"); unsetenv("COLUMBUS_DATADIR"); }
}
