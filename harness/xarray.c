/* Random histories over XArray against an independent list model.
   usage: xarray SEED HISTORIES OPS     prints STAT lines, or MISMATCH lines. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "array.h"

static unsigned long long rs;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (unsigned)((rs >> 11) % n) : 0; }

typedef struct { unsigned char *d; size_t n; unsigned key; void *ptr; int cls; } el; /* cls 0: copied, 1: pushed, 2: pointer only */
static el *M; static size_t mu, mc;
static xarray_t *A; static size_t fixed_cap;
static unsigned long cleared, live_expected;
static char trace[1 << 16]; static size_t tl;
static int bad, anypush;
static unsigned long nops[32], nshrink, ngrow, nfull, maxused, nsorted;

static void T(const char *f, long a, long b) { if (tl > sizeof trace - 200) tl = 0; tl += snprintf(trace + tl, 100, f, a, b); }
static void mism(const char *k, long a, long b)
{
    if (bad++) return;
    printf("MISMATCH %s got=%ld want=%ld\nHISTORY %s\n", k, a, b, trace);
}
static void clr(xarray_data_t *d)
{
    cleared++;
    if (d->pData && d->nSize) free(d->pData);
}
static void m_ins(size_t i, el e)
{
    if (mu == mc) { mc = mc ? mc * 2 : 16; M = realloc(M, mc * sizeof *M); }
    memmove(M + i + 1, M + i, (mu - i) * sizeof *M); M[i] = e; mu++;
}
static void m_free(el *e) { free(e->d); }
static void m_del(size_t i) { m_free(&M[i]); memmove(M + i, M + i + 1, (mu - i - 1) * sizeof *M); mu--; }
static el mk(void)
{
    el e; memset(&e, 0, sizeof e);
    e.cls = rnd(6) == 0 ? 2 : rnd(4) == 0 ? 1 : 0;
    e.n = e.cls == 2 ? 0 : 1 + rnd(rnd(4) ? 12 : 300);
    e.d = malloc(e.n + 1);
    for (size_t i = 0; i < e.n; i++) e.d[i] = rnd(256);
    e.key = rnd(3) ? rnd(16) : rnd(0xffffffffu);
    if (rnd(10) == 0) e.key = 0x80000000u + rnd(3);
    return e;
}
static int same(xarray_data_t *d, el *e)
{
    if (!d || d->nSize != e->n || d->nKey != e->key) return 0;
    if (e->cls == 2) return d->pData == e->ptr;
    if (e->cls == 1 && d->pData != e->ptr) return 0;
    return memcmp(d->pData, e->d, e->n) == 0;
}
static void check(const char *op)
{
    char k[64];
    snprintf(k, sizeof k, "%s/used", op);
    if (XArray_Used(A) != mu) { mism(k, XArray_Used(A), mu); return; }
    snprintf(k, sizeof k, "%s/size-below-used", op);
    if (XArray_Size(A) < mu) mism(k, XArray_Size(A), mu);
    if (fixed_cap && XArray_Size(A) != fixed_cap) mism("fixed-size-changed", XArray_Size(A), fixed_cap);
    snprintf(k, sizeof k, "%s/content", op);
    for (size_t i = 0; i < mu; i++) if (!same(XArray_Get(A, i), &M[i])) { mism(k, i, mu); return; }
    snprintf(k, sizeof k, "%s/unused-slot", op);
    for (size_t i = mu; i < XArray_Size(A); i++) if (XArray_Contains(A, i) || XArray_Get(A, i)) { mism(k, i, mu); return; }
    if (mu > maxused) maxused = mu;
}
static int cmp_key_desc(const void *a, const void *b, void *c)
{
    const xarray_data_t *x = a, *y = b; (*(unsigned long *)c)++;
    return (x->nKey < y->nKey) - (x->nKey > y->nKey);
}
static int cmp_size(const void *a, const void *b, void *c)
{
    const xarray_data_t *x = a, *y = b; (*(unsigned long *)c)++;
    return (x->nSize > y->nSize) - (x->nSize < y->nSize);
}
static int cmp_big(const void *a, const void *b, void *c)   /* results of any magnitude */
{
    const xarray_data_t *x = a, *y = b; (*(unsigned long *)c)++;
    return x->nKey > y->nKey ? 1000 + (int)(x->nKey & 3) : x->nKey < y->nKey ? -70000 : 0;
}
static void resync(void)
{   /* after sorting: the array must hold a permutation of the model's elements */
    el *N = malloc((mu + 1) * sizeof *N); char *usedf = calloc(mu + 1, 1);
    for (size_t i = 0; i < mu; i++) {
        size_t j; xarray_data_t *d = XArray_Get(A, i);
        for (j = 0; j < mu; j++) if (!usedf[j] && M[j].cls == 1 && same(d, &M[j])) break;   /* same pointer */
        if (j == mu) for (j = 0; j < mu; j++) if (!usedf[j] && same(d, &M[j])) break;
        if (j == mu) { mism("sort/not-a-permutation", i, mu); free(usedf); free(N); return; }
        usedf[j] = 1; N[i] = M[j];
    }
    memcpy(M, N, mu * sizeof *N); free(N); free(usedf);
}
int main(int c, char **v)
{
    unsigned long long seed = strtoull(v[1], 0, 10); int H = atoi(v[2]), O = atoi(v[3]);
    for (int h = 0; h < H && !bad; h++) {
        static xarray_t st;
        rs = (seed * 0x9E3779B97F4A7C15ull) ^ ((h + 1) * 0xD1B54A32D192ED03ull); if (!rs) rs = 1;
        for (int i = 0; i < 10; i++) rnd(2);
        tl = 0; trace[0] = 0; anypush = 0; mu = 0; cleared = 0; live_expected = 0;
        int fixed = rnd(4) == 0; size_t cap = fixed ? 1 + rnd(12) : rnd(3) ? rnd(5) : rnd(40);
        int stat = rnd(3) == 0;
        fixed_cap = fixed ? cap : 0;
        T("new(%ld,fixed=%ld) ", cap, fixed);
        if (stat) { A = &st; XArray_Init(A, cap, fixed); } else A = XArray_New(cap, fixed);
        int cb = rnd(3) == 0;
        if (cb) A->clearCb = clr;
        int growbias = rnd(3);      /* 0 shrink phases, 1 balanced, 2 grow */
        int bigrun = rnd(8) == 0;
        for (int o = 0; o < O && !bad; o++) {
            size_t psz = XArray_Size(A);
            unsigned op = rnd(100);
            if (rnd(60) == 0) growbias = rnd(3);
            if (growbias == 2 && op < 60) op = rnd(40);
            if (growbias == 0 && op < 60) op = 40 + rnd(22);
            if (op < 40) {
                el e = mk(); int how = rnd(6); int r = -2; size_t at = 0;
                int full = fixed && mu == cap;
                if (e.cls == 1) how = 2; else if (e.cls == 2 && how == 2) how = 3;
                if (how != 1 && how != 3 && how != 5) e.key = 0;
                void *src = e.cls == 2 ? (void *)(rnd(2) ? &e : NULL) : e.d;
                if (e.cls == 2) e.ptr = src;
                if (how == 2) { src = malloc(e.n); memcpy(src, e.d, e.n); e.ptr = src; anypush = 1; }
                nops[how]++;
                if (how >= 4) at = rnd(3) ? rnd(mu + 1) : rnd(2) ? mu : mu + rnd(6);
                T(how == 0 ? "AddData(%ld) " : how == 1 ? "AddDataKey(%ld,%ld) " : how == 2 ? "Push(%ld) " : how == 3 ? "Add(%ld,%ld) " : how == 4 ? "InsertData(n=%ld,at=%ld) " : "Insert(n=%ld,at=%ld) ", e.n, how >= 4 ? (long)at : (long)e.key);
                unsigned long c0 = cleared;
                if (how == 0) r = XArray_AddData(A, src, e.n);
                else if (how == 1) r = XArray_AddDataKey(A, src, e.n, e.key);
                else if (how == 2) r = XArray_PushData(A, src, e.n);
                else if (how == 3) r = XArray_Add(A, XArray_NewData(src, e.n, e.key));
                else if (how == 4) XArray_InsertData(A, at, src, e.n);
                else if (!full) XArray_Insert(A, at, XArray_NewData(src, e.n, e.key));
                if (full) {
                    nfull++;
                    if (how < 4 && r != XARRAY_FAILURE) mism("add-to-full-fixed-succeeds", r, -1);
                    if (how < 4 && cb && cleared != c0 + 1) mism("refused-element-not-cleared", cleared - c0, 1);
                    m_free(&e);
                } else {
                    if (how < 4) { if (r != (int)mu) mism("add-index", r, mu); at = mu; }
                    m_ins(at > mu ? mu : at, e);
                }
                check(how < 4 ? "add" : "insert");
                if (XArray_Size(A) > psz) ngrow++;
            } else if (op < 62) {
                size_t at = rnd(8) ? rnd(mu + 1) : rnd(mu + 20); int del = rnd(2);
                unsigned long c0 = cleared;
                T(del ? "Delete(%ld) " : "Remove(%ld) ", at, 0); nops[6 + del]++;
                if (del) {
                    XArray_Delete(A, at);
                    if (cb && cleared != c0 + (at < mu)) mism("delete-callback-count", cleared - c0, at < mu);
                } else {
                    xarray_data_t *d = XArray_Remove(A, at);
                    if (!d != !(at < mu)) mism("remove-result", d != 0, at < mu);
                    if (d) { if (at < mu && !same(d, &M[at])) mism("remove-wrong-element", at, 0); XArray_ClearData(A, d); }
                }
                if (at < mu) m_del(at);
                check(del ? "delete" : "remove");
                if (XArray_Size(A) < psz) nshrink++;
            } else if (op < 68 && mu) {
                size_t a = rnd(mu), b = rnd(mu); T("Swap(%ld,%ld) ", a, b); nops[8]++;
                XArray_Swap(A, a, b); el t = M[a]; M[a] = M[b]; M[b] = t; check("swap");
                XArray_Swap(A, a, mu + rnd(3)); check("swap-out-of-range");
            } else if (op < 74 && mu) {
                size_t at = rnd(mu); el e = mk(); if (e.cls) { m_free(&e); continue; }
                T("SetData(%ld) ", at, 0); nops[9]++; e.key = 0;
                xarray_data_t *old = XArray_SetData(A, at, e.d, e.n);
                if (!same(old, &M[at])) mism("set-old-element", at, 0);
                XArray_ClearData(A, old); m_free(&M[at]); M[at] = e; check("set");
            } else if (op < 82) {
                unsigned long calls = 0; int how = rnd(5); T("Sort(%ld) ", how, 0); nops[10]++;
                if (bigrun && mu > 400 && how == 4) how = 3;
                if (how == 0) XArray_SortBy(A, XARRAY_SORTBY_KEY);
                else if (how == 1) XArray_SortBy(A, XARRAY_SORTBY_SIZE);
                else if (how == 2) XArray_Sort(A, cmp_key_desc, &calls);
                else if (how == 3) XArray_Sort(A, cmp_big, &calls);
                else XArray_BubbleSort(A, cmp_size, &calls);
                resync();
                for (size_t i = 1; i < mu && !bad; i++) {
                    xarray_data_t *p = XArray_Get(A, i - 1), *q = XArray_Get(A, i);
                    int ok = how == 0 || how == 3 ? p->nKey <= q->nKey : how == 2 ? p->nKey >= q->nKey : p->nSize <= q->nSize;
                    if (!ok) mism(how == 4 ? "bubble/not-sorted" : how == 1 ? "sort-size/not-sorted" : "sort/not-sorted", i, how);
                }
                check("sort"); if (mu > 2) nsorted++;
                if (how == 0 || how == 3) for (int t = 0; t < 6 && !bad; t++) {
                    unsigned k = rnd(2) && mu ? M[rnd(mu)].key : rnd(20); int in = 0;
                    for (size_t i = 0; i < mu; i++) in |= M[i].key == k;
                    int r = XArray_BinarySearch(A, k);
                    if ((r >= 0) != in || (r >= 0 && ((size_t)r >= mu || M[r].key != k))) mism("binary-search", r, in);
                    nops[11]++;
                }
            } else if (op < 94) {
                unsigned k = rnd(2) && mu ? M[rnd(mu)].key : rnd(20); int first = -1;
                for (size_t i = 0; i < mu; i++) if (M[i].key == k) { first = i; break; }
                int l = XArray_LinearSearch(A, k), d = XArray_DoubleSearch(A, k), s = XArray_SentinelSearch(A, k);
                nops[12]++; T("Search(%ld) ", k, 0);
                if (l != first) mism("linear-search", l, first);
                if ((d >= 0) != (first >= 0) || (d >= 0 && ((size_t)d >= mu || M[d].key != k))) mism("double-search", d, first);
                if ((s >= 0) != (first >= 0) || (s >= 0 && ((size_t)s >= mu || M[s].key != k))) mism("sentinel-search", s, first);
                check("search");
            } else if (op < 99) {
                size_t at = rnd(mu + 30); int dummy; nops[13]++;
                if (at < mu) {
                    if (XArray_GetSize(A, at) != M[at].n) mism("getsize", at, 0);
                    if (XArray_GetKey(A, at) != M[at].key) mism("getkey", at, 0);
                    if (!XArray_Contains(A, at)) mism("contains", at, 0);
                    if (M[at].cls == 0) { char *p = XArray_GetData(A, at); if (!p || memcmp(p, M[at].d, M[at].n)) mism("getdata", at, 0); else if (!anypush && p[M[at].n]) mism("getdata/terminator", at, 0); }
                } else {
                    if (XArray_GetData(A, at)) mism("getdata-out-of-range", at, 0);
                    if (XArray_GetDataOr(A, at, &dummy) != &dummy) mism("getdataor-out-of-range", at, 0);
                    if (XArray_GetSize(A, at) || XArray_GetKey(A, at) || XArray_Contains(A, at) || XArray_Get(A, at)) mism("out-of-range-read", at, 0);
                }
            } else if (rnd(3) == 0) {
                unsigned long c0 = cleared; T("Clear ", 0, 0); nops[14]++;
                XArray_Clear(A);
                if (cb && cleared - c0 != mu) mism("clear-callback-count", cleared - c0, mu);
                while (mu) m_del(mu - 1);
                check("clear");
            }
        }
        unsigned long c0 = cleared;
        if (!bad) {
            if (stat) { XArray_Destroy(A); if (A->pData || XArray_Size(A)) mism("destroy", 1, 0); }
            else { XArray_Free(&A); if (A) mism("free", 1, 0); }
            if (cb && cleared - c0 != mu) mism("destroy-callback-count", cleared - c0, mu);
            while (mu) m_del(mu - 1);
        }
    }
    free(M);
    if (bad) { fflush(stdout); _Exit(10); }
    unsigned long tot = 0; for (int i = 0; i < 32; i++) tot += nops[i];
    printf("STAT ops %lu\nSTAT grow %lu\nSTAT shrink %lu\nSTAT full_refused %lu\nSTAT max_used %lu\nSTAT sorts %lu\n", tot, ngrow, nshrink, nfull, maxused, nsorted);
    for (int i = 0; i < 15; i++) printf("KIND %d %lu\n", i, nops[i]);
    return 0;
}
