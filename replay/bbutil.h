#pragma once
#include "harness.h"
#include <pv/byteBuffer.h>
#include <pv/pvType.h>
#include <sys/wait.h>
#include <signal.h>
#include <memory>
using namespace epics::pvData;
// did f() abort (assert) without an out-of-bounds access?
template<typename F> bool aborts(F f) {
    pid_t p = fork();
    if(p == 0) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); f(); _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return true;
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status %d", st);
    return false;
}
struct BB {
    size_t n, pos, lim; bool big; std::unique_ptr<char[]> mem; std::vector<unsigned char> ref; std::unique_ptr<ByteBuffer> b;
    BB(Src& s, size_t maxn = 70) {
        n = s.range(0, maxn); lim = s.range(0, n); pos = s.range(0, lim); big = s.flag();
        mem.reset(new char[n ? n : 1]); ref.resize(n);
        uint64_t x = s.any();
        for(size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; mem[i] = ref[i] = x >> 56; }
        char *h = (char*)malloc(n ? n : 1); memcpy(h, mem.get(), n);
        hp = h;
        b.reset(new ByteBuffer(h, n, big ? 4321 : 1234)); b->setLimit(lim); b->setPosition(pos);
    }
    ~BB() { b.reset(); free(hp); }
    char *hp;
    void same(const char *what) {
        CHECK(b->getPosition() == pos, "%s: position %zu want %zu", what, b->getPosition(), pos);
        CHECK(b->getLimit() == lim, "%s: limit", what); CHECK(b->getSize() == n, "%s: size", what);
        CHECK(b->getRemaining() == lim - pos, "%s: remaining", what);
        for(size_t i = 0; i < n; i++) CHECK((unsigned char)hp[i] == ref[i], "%s: byte %zu", what, i);
    }
};
template<typename T> void encode(unsigned char *to, T v, bool big) {
    unsigned char t[sizeof(T)]; memcpy(t, &v, sizeof v);
    for(size_t i = 0; i < sizeof(T); i++) to[i] = big ? t[sizeof(T) - 1 - i] : t[i];
}
template<typename T> T decode(const unsigned char *p, bool big) {
    unsigned char t[sizeof(T)]; for(size_t i = 0; i < sizeof(T); i++) t[i] = big ? p[sizeof(T) - 1 - i] : p[i];
    T v; memcpy(&v, t, sizeof v); return v;
}
template<typename T> T fromBits(uint64_t v) { T t; memcpy(&t, &v, sizeof t); return t; }
template<typename T> bool bitsEq(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
