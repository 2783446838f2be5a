// Offline checker of a recorded history of atomic operations on one object.
// hist chain FILE   : only read-modify-write operations; the edges old->new of all
//                     operations must form an Eulerian path from the initial to the final value
// hist lin FILE     : rounds of few operations; every round must be linearizable
//                     (Wing-Gong search with memo), from its start value to the next one
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
using namespace std;
typedef uint64_t u64;
struct ev { u64 t0, t1, a, b, r; uint32_t op, ok; };
static u64 M;
static const char *nm[] = { "load", "store", "exchange", "compare_exchange", "fetch_add", "fetch_sub", "fetch_or", "fetch_xor", "fetch_and", "fetch_nand",
    "add_fetch", "sub_fetch", "or_fetch", "xor_fetch", "and_fetch", "nand_fetch" };
static u64 app(int k, u64 x, u64 a)
{
    switch (k) { case 0: x += a; break; case 1: x -= a; break; case 2: x |= a; break; case 3: x ^= a; break; case 4: x &= a; break; default: x = ~(x & a); }
    return x & M;
}
// applies e to state; false if the recorded result cannot come from it
static bool step(const ev &e, u64 s, u64 &n)
{
    n = s;
    switch (e.op) {
    case 0: return e.r == s;
    case 1: n = e.a; return true;
    case 2: n = e.a; return e.r == s;
    case 3:
        if (e.ok) { n = e.b; return s == e.a && e.r == e.a; }
        return e.r == s && e.r != e.a;
    }
    if (e.op < 10) { n = app(e.op - 4, s, e.a); return e.r == s; }
    n = app(e.op - 10, s, e.a);
    return e.r == n;
}
static string show(const ev &e, int th)
{
    char b[256];
    snprintf(b, sizeof b, "T%d [%llu,%llu] %s a=%llx b=%llx -> %llx ok=%u", th, (unsigned long long)e.t0, (unsigned long long)e.t1, nm[e.op & 15],
             (unsigned long long)e.a, (unsigned long long)e.b, (unsigned long long)e.r, e.ok);
    return b;
}
static u64 states, overlaps;
static bool lin(const vector<ev> &w, u64 s, u64 fin, u64 done, unordered_set<u64> &seen)
{
    if (done == (1ull << w.size()) - 1)
        return s == fin;
    u64 key = (done << 40) ^ (s * 0x9e3779b97f4a7c15ull >> 20) ^ s;
    if (!seen.insert(key ^ (done * 0xbf58476d1ce4e5b9ull)).second)
        return false;
    states++;
    u64 lim = ~0ull;
    for (size_t i = 0; i < w.size(); i++)
        if (!(done >> i & 1)) lim = min(lim, w[i].t1);
    for (size_t i = 0; i < w.size(); i++) {
        u64 n;
        if ((done >> i & 1) || w[i].t0 > lim || !step(w[i], s, n)) continue;
        if (lin(w, n, fin, done | 1ull << i, seen)) return true;
    }
    return false;
}
int main(int c, char **v)
{
    FILE *f = fopen(v[2], "rb");
    u64 h[8];
    if (!f || fread(h, 8, 8, f) != 8 || h[0] != 0x54534948) { printf("bad history header\n"); return 2; }
    u64 nt = h[2], per = h[3], rounds = h[4];
    M = h[1] == 8 ? ~0ull : (1ull << h[1] * 8) - 1;
    vector<u64> st(rounds + 1);
    vector<ev> E(rounds * nt * per);
    if (fread(st.data(), 8, rounds + 1, f) != rounds + 1 || fread(E.data(), sizeof(ev), E.size(), f) != E.size()) { printf("short history\n"); return 2; }
    if (h[5]) { printf("BAD neighbouring objects were written: %llu guards\n", (unsigned long long)h[5]); return 1; }
    u64 fails = 0, oks = 0, inter = 0;
    for (auto &e : E) if (e.op == 3) { if (e.ok) oks++; else fails++; }
    for (u64 r = 0; r < rounds; r++) {
        if (!strcmp(v[1], "lin")) {
            vector<ev> w(E.begin() + r * nt * per, E.begin() + (r + 1) * nt * per);
            for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < i; j++)
                if (i / per != j / per && w[i].t0 <= w[j].t1 && w[j].t0 <= w[i].t1) overlaps++;
            unordered_set<u64> seen;
            if (!lin(w, st[r], st[r + 1], 0, seen)) {
                printf("BAD round %llu is not linearizable from %llx to %llx:\n", (unsigned long long)r, (unsigned long long)st[r], (unsigned long long)st[r + 1]);
                for (size_t i = 0; i < w.size(); i++) printf("%s\n", show(w[i], i / per).c_str());
                return 1;
            }
        } else {
            unordered_map<u64, long> bal; unordered_map<u64, u64> uf;
            auto find = [&](u64 x) { while (uf.count(x) && uf[x] != x) { u64 p = uf[x]; if (uf.count(p)) uf[x] = uf[p]; x = p; } return x; };
            auto uni = [&](u64 a, u64 b) { a = find(a); b = find(b); uf.emplace(a, a); uf.emplace(b, b); if (a != b) uf[a] = b; };
            uni(st[r], st[r]);
            u64 prevold = 0; (void)prevold;
            for (size_t i = r * nt * per; i < (r + 1) * nt * per; i++) {
                const ev &e = E[i];
                u64 old = e.r, nw;
                if (e.op >= 10) {
                    // old value from the result: add, sub and xor have an inverse
                    int k = e.op - 10;
                    old = k == 0 ? (e.r - e.a) & M : k == 1 ? (e.r + e.a) & M : k == 3 ? e.r ^ e.a : 0;
                    if (k == 2 || k > 3) { printf("BAD harness: no inverse\n"); return 2; }
                }
                if (!step(e, old, nw)) { printf("BAD impossible result: %s\n", show(e, (i / per) % nt).c_str()); return 1; }
                uni(old, nw);
                if (old != nw) { bal[old]++; bal[nw]--; }
            }
            bal[st[r]]--; bal[st[r + 1]]++;
            for (auto &p : bal) {
                if (p.second) { printf("BAD round %llu: value %llx was left %+ld times more often than it was reached (start %llx end %llx): an update was lost or repeated\n",
                    (unsigned long long)r, (unsigned long long)p.first, p.second, (unsigned long long)st[r], (unsigned long long)st[r + 1]); return 1; }
            }
            u64 root = find(st[r]);
            for (auto &p : uf) if (find(p.first) != root) { printf("BAD round %llu: value %llx was never reached\n", (unsigned long long)r, (unsigned long long)p.first); return 1; }
            states += uf.size();
            // interleavings seen: consecutive operations of one thread between which another thread changed the value
            for (u64 t = 0; t < nt; t++) {
                u64 cur = 0; bool have = false;
                for (u64 k = 0; k < per; k++) {
                    const ev &e = E[(r * nt + t) * per + k]; u64 n;
                    u64 old = e.op >= 10 ? 0 : e.r;
                    if (e.op < 10) { if (have && old != cur) inter++; step(e, old, n); cur = n; have = true; } else have = false;
                }
            }
        }
    }
    printf("OK events=%zu states=%llu overlaps=%llu interleavings=%llu cas_ok=%llu cas_failed=%llu\n", E.size(), (unsigned long long)states, (unsigned long long)overlaps,
           (unsigned long long)inter, (unsigned long long)oks, (unsigned long long)fails);
    return 0;
}
