#include "vf.h"
#include <wchar.h>
static char a1[] = "abc", a2[10] = "abc", a3[3] = "abc", a4[] = { "abc" "def" "\0ghi" }, a5[2][4] = { "ab", "cd" }, a6[][3] = { "a", "bc", { 'x', 'y', 'z' } };
static const char *p1 = "hello" " " "world", *pp[] = { "x", "yy", "zzz" + 1, &"abcd"[2], 0 };
static wchar_t w1[] = L"w\x100\u20ac\U0001F600", w2[8] = L"ab", w3[] = L"éࠀ￿𐀀𿿿񀀀󿿿􀀀􏿽􏿿";
struct s { char n[4]; const char *p; char t[8]; } st[] = { { "abcd", "q", "ef" }, { { 'a', 'b' }, "rr" }, [3] = { "z", .t = "1234567" } };
static char es[] = "\a\b\f\n\r\t\v\\\'\"\?\0\1\12\123\x1\xff\x0ag\e\u20ac";
#define STR(x) #x
#define XSTR(x) STR(x)
static int len(const char *s) { int n = 0; while (*s++) n++; return n; }
static char *rev(char *s) { char *a = s, *b = s + len(s) - 1, t; while (a < b) t = *a, *a++ = *b, *b-- = t; return s; }
static const char *fn(void) { return __func__; }
int main(void)
{
  P(sizeof a1); P(sizeof a2); P(sizeof a3); P(sizeof a4); P(sizeof a5); P(sizeof a6); P(sizeof w1); P(sizeof w2); P(sizeof es); P(sizeof st);
  P(sizeof "abc"); P(sizeof L"abc"); P(sizeof "a\0b"); P(sizeof("x" "y"));
  for (int i = 0; i < (int)sizeof es; i++) P(es[i]);
  D(for (int i = 0; i < (int)sizeof a4; i++) H(a4[i])); D(for (int i = 0; i < 8; i++) H(((char *)a5)[i])); D(for (int i = 0; i < (int)sizeof a6; i++) H(((char *)a6)[i]));
  D(for (int i = 0; i < (int)(sizeof w1 / sizeof *w1); i++) H(w1[i])); D(for (int i = 0; i < 8; i++) H(w2[i]));
  D(for (int i = 0; i < (int)(sizeof w3 / sizeof *w3); i++) H(w3[i])); P(w3[7]); P(L'􏿽'); P(sizeof w3);
  S(p1); for (int i = 0; pp[i]; i++) S(pp[i]);
  for (int i = 0; i < 4; i++) { D(for (int k = 0; k < 4; k++) H(st[i].n[k])); S(st[i].p ? st[i].p : "null"); S(st[i].t); }
  char l1[] = "local", l2[10] = "loc", l3[] = { 'a', 'b', 0 }; static char l4[4] = "st"; const char l5[6] = { "inner" };
  S(l1); S(l2); S(l3); S(l4); S(l5); P(l2[9]); S(rev(l1)); S(fn()); S(__func__);
  P('a'); P('\n'); P('\377'); P('\xff'); P('ab'); P('abcd'); P(L'\u20ac'); P(sizeof 'a'); P(sizeof L'a'); P('\0'); P('"'); P('\''); P('\?'); P(L'\xffff'); P('\12'); P('\1234' & 0);
  P("abc"[1]); P(*"xyz"); P(1["abc"]); P(*("abc" + 2)); P(sizeof ("abc"[0])); P(sizeof *"abc"); P("abc"[3]);
  S(STR(a "b\n" 'c' \ d)); S(XSTR(__LINE__)); S(XSTR(a  b   c)); S(STR("\\" '"'));
  char big[600]; int n = 0; for (int i = 0; i < 100; i++) n += sprintf(big + n, "%d,", i % 37); P(n); D(for (int i = 0; i < n; i++) H(big[i]));
  const char *t = rnd() & 1 ? "one" : "two"; S(t); P(strcmp(t, rnd() % 2 ? "one" : "two") > 0);
  char *d = (char[]){ "compound" }; d[0] = 'C'; S(d); S((char[12]){ "pad" }); S(((struct s){ "n", "pq", "tt" }).p);
  S("very long literal ................................................................................................................................" "................................................................................................................................................" "end");
  char c = 'A'; switch (c) { case 'A': S("A"); break; case 'B': S("B"); }
  signed char sc = '\xe9'; unsigned char uc = '\xe9'; P(sc == uc); P(sc); P(uc); P((char)'\xe9' == '\xe9');
  S("a" /* c */ "b" "c"); S("??=" + 2); S("\x41" "B" "\103" "4"); S("tab\tq\"uote\\"); const char *lc = "line\
continued"; S(lc);
  return 0;
}
