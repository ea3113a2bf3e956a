// Concrete replay of verifier counterexamples against the real code, and a
// random search for a failing input once a proof does not go through.
//   prog replay FILE          words of one case (whitespace separated integers)
//   prog search SEED SECS LAST [topic]
// A case is a sequence of words pulled through Src.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <fstream>
#include <sstream>
#include <exception>
#include <ctime>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
typedef unsigned __int128 u128;
// libCom's version talks to the errlog thread; the replay process just dies
extern "C" void epicsAssert(const char *file, unsigned line, const char *exp, const char *)
{ fprintf(stderr, "assert failed %s:%u: %s\n", file, line, exp); abort(); }
struct CaseFail { std::string why; };
struct Src {
    std::vector<uint64_t> in; size_t pos = 0; bool gen = false;
    std::mt19937_64 rng; char *log = 0; size_t lpos = 0; static const size_t LSZ = 1 << 20;
    void rec(uint64_t v) {
        if(!log || lpos > LSZ - 40) return;
        lpos += snprintf(log + lpos, 32, "%llu ", (unsigned long long)v);
    }
    void begin() { lpos = 0; if(log) log[0] = 0; }
    uint64_t any() {           // any 64 bit value, biased to boundaries
        uint64_t v;
        if(!gen) { v = pos < in.size() ? in[pos] : 0; pos++; return v; }
        uint64_t r = rng();
        switch(r % 8) {
        case 0: v = (r >> 8) % 4; break;
        case 1: v = (r >> 8) % 300; break;
        case 2: v = (1ull << ((r >> 8) % 64)) + ((r >> 20) % 3) - 1; break;
        case 3: v = 0 - ((r >> 8) % 4); break;
        case 4: v = 0ull - (1ull << ((r >> 8) % 64)) + ((r >> 20) % 3) - 1; break;
        case 5: v = rng() >> ((r >> 8) % 64); break;
        case 6: v = (r >> 8) % 70000; break;
        default: v = rng();
        }
        rec(v); return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) {   // inclusive
        if(!gen) { uint64_t v = any(); return (v >= lo && v <= hi) ? v : lo + (hi - lo == ~0ull ? v : v % (hi - lo + 1)); }
        uint64_t r = rng(), v, n = hi - lo;
        if(r % 8 == 0) v = lo; else if(r % 8 == 1) v = hi;
        else v = lo + (n == ~0ull ? rng() : rng() % (n + 1));
        rec(v); return v;
    }
    bool flag() { return range(0, 1) != 0; }
    double dbl() { uint64_t v; if(!gen) v = any(); else {
            uint64_t r = rng(); double d;
            switch(r % 6) { case 0: d = double(int64_t(rng() % 2001) - 1000); break; case 1: d = (double(int64_t(rng() % 2000001) - 1000000)) / 1000; break;
            case 2: d = std::strtod("nan", 0); break; case 3: d = (r & 64) ? 1e300 : -1e300; break; case 4: { uint64_t b = rng(); memcpy(&d, &b, 8); break; }
            default: d = double(rng()) * ((r & 64) ? 1 : -1) / 4294967296.0; }
            memcpy(&v, &d, 8); rec(v); }
        double d; memcpy(&d, &v, 8); return d; }
};
#define CHECK(c, ...) do { if(!(c)) { char _b[1024]; snprintf(_b, sizeof _b, __VA_ARGS__); throw CaseFail{std::string(#c) + ": " + _b}; } } while(0)
void run_case(Src& s, const std::string& topic);
// a single case takes microseconds; one that is still running after 20 s of cpu time does not end
static void stuck(int) { static const char m[] = "FAIL the case does not terminate\n"; ssize_t k = write(1, m, sizeof m - 1); (void)k; _exit(98); }
static void watch() { struct itimerval t = {{0, 0}, {20, 0}}; setitimer(ITIMER_PROF, &t, 0); }
int main(int argc, char **argv)
{
    if(argc < 3) return 2;
    signal(SIGPROF, stuck); watch();
    std::string mode(argv[1]);
    if(mode == "replay") {
        Src s; std::ifstream f(argv[2]); uint64_t w; std::string tok;
        while(f >> tok) { if(tok[0] == '-') w = (uint64_t)strtoll(tok.c_str(), 0, 0); else w = strtoull(tok.c_str(), 0, 0); s.in.push_back(w); }
        try { run_case(s, argc > 3 ? argv[3] : ""); }
        catch(CaseFail& e) { printf("FAIL %s\n", e.why.c_str()); return 1; }
        catch(std::exception& e) { printf("FAIL unexpected exception %s\n", e.what()); return 1; }
        printf("pass\n"); return 0;
    }
    Src s; s.gen = true; s.rng.seed(strtoull(argv[2], 0, 0)); double secs = atof(argv[3]);
    int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd < 0 || ftruncate(fd, Src::LSZ)) return 2;
    s.log = (char*)mmap(0, Src::LSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    time_t t0 = time(0); unsigned long n = 0;
    std::string topic = argc > 5 ? argv[5] : "";
    while(difftime(time(0), t0) < secs) {
        for(int i = 0; i < 50; i++) {
            s.begin(); n++; if(n % 16 == 1) watch();
            try { run_case(s, topic); }
            catch(CaseFail& e) { printf("FAIL after %lu cases: %s\n", n, e.why.c_str()); fflush(stdout); return 1; }
            catch(std::exception& e) { printf("FAIL after %lu cases: unexpected exception %s\n", n, e.what()); fflush(stdout); return 1; }
        }
    }
    printf("no failing case in %lu cases\n", n);
    return 0;
}
