#include "common.hh"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

bool verbose = false;
int thorough = 0;
unsigned long long nontrivial = 0;
static const char *curProp = "?";
static unsigned long long curCase = 0;

void note(const char *fmt, ...) {
    if(!verbose) return;
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
}
void fail(const char *fmt, ...) {
    printf("FAIL %s case %llu: ", curProp, curCase);
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); fflush(stdout);
    _exit(3);
}
Alphabet makeAlphabet(Rng &r, int n) {
    static const uint32_t edge[] = {'a','b','c','z','0','9','\'','-','_', 0x7f, 0x80, 0xdf, 0xe4, 0xe5, 0xf6, 0xff, 0x100, 0x101, 0x131, 0x1fd, 0x1ff, 0x200, 0x201, 0x2ff, 0x3b1, 0x3ac, 0x7ff, 0x800, 0x1e9e, 0x2003, 0x3042, 0xd7ff, 0xe000, 0xfeff, 0xff00, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x10400, 0x161, 0x261, 0xff41, 0x6100};
    Alphabet a;
    int mode = r.range(0, 3);
    while((int)a.sym.size() < n) {
        uint32_t c;
        if(mode == 0) c = 'a' + a.sym.size() % 26;
        else if(mode == 1 || r.chance(60)) c = edge[r.below(sizeof(edge) / sizeof(*edge))];
        else c = (uint32_t)r.range(0x21, 0x10ffff);
        if(c >= 0xd800 && c < 0xe000) continue;
        if(isws(c) || c == 0) continue;
        L16 u; std::string s; put8(s, c); get16(s, u); u = lower(u);
        a.sym.push_back(u);
    }
    return a;
}
L16 randWord(Rng &r, const Alphabet &a, int lo, int hi) {
    L16 w; int n = r.range(lo, hi);
    for(int i = 0; i < n; i++) { const L16 &s = r.pick(a.sym); w.insert(w.end(), s.begin(), s.end()); }
    return w;
}
extern Prop props[];

int main(int argc, char **argv) {
    if(argc < 2) { for(Prop *p = props; p->id; p++) printf("%s %u %u\n", p->id, p->quick, p->thorough); return 0; }
    unsigned long long seed = 1, one = ~0ull, from = 0, to = 0; double limit = 0;
    for(int i = 2; i + 1 < argc; i += 2) {
        std::string o = argv[i];
        if(o == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        else if(o == "--case") one = strtoull(argv[i + 1], 0, 10);
        else if(o == "--from") from = strtoull(argv[i + 1], 0, 10);
        else if(o == "--to") to = strtoull(argv[i + 1], 0, 10);
        else if(o == "--thorough") thorough = atoi(argv[i + 1]);
        else if(o == "--limit") limit = atof(argv[i + 1]);
    }
    Prop *p = props;
    while(p->id && strcmp(p->id, argv[1])) p++;
    if(!p->id) { fprintf(stderr, "no such property\n"); return 2; }
    curProp = p->id;
    if(one != ~0ull) { from = one; to = one + 1; verbose = true; }
    time_t t0 = time(0);
    unsigned long long done = 0;
    // progress file descriptor 7, when the driver gave one: case number, so a crash names its case
    for(unsigned long long c = from; c < to; c++) {
        curCase = c;
        char b[32]; int n = snprintf(b, 32, "%20llu\n", c);
        if(fcntl(7, F_GETFD) != -1) { ssize_t x = pwrite(7, b, n, 0); (void)x; }
        Rng r(seed * 0x100000001b3ull ^ (c + 1) * 0x9e3779b97f4a7c15ull ^ (unsigned long long)(p->id[1] * 10 + p->id[2]) << 40);
        r.next();
        alarm(verbose ? 300 : 240);
        try { p->fn(r); }
        catch(std::exception &e) { fail("unexpected exception: %s", esc(e.what()).c_str()); }
        catch(...) { fail("unexpected foreign exception"); }
        done++;
        if(limit && time(0) - t0 > limit) break;
    }
    printf("DONE %s cases %llu nontrivial %llu\n", p->id, done, nontrivial);
    return 0;
}
