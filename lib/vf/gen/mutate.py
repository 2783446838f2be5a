"""Source texts that are nearly right: token and byte level mutations of real
programs, and templates filled with extreme constants."""
import re

TOK = re.compile(rb'[A-Za-z_]\w*|\d[\w.]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[^\w\s]|\s+')
POOL = [t.encode() for t in '''int char long struct union enum typedef static extern inline void float double short unsigned signed _Bool _Complex _Atomic
_Generic _Alignas _Alignof _Static_assert _Thread_local __attribute__ __typeof__ __builtin_va_arg __builtin_choose_expr __builtin_constant_p
__builtin_types_compatible_p __builtin_offsetof __label__ __func__ __asm__ __extension__ sizeof if else for while do switch case default goto return break continue
asm volatile const restrict ( ) [ ] { } ; , . -> ++ -- + - * / % & | ^ ~ ! < > << >> <= >= == != && || ? : = += <<= ... # ## 0 1 -1 0x7fffffffffffffff 1e400 1.5f
"s" L"w" 'c' '' main x a \\ #define #undef #if #ifdef #else #elif #endif #include #line #pragma #error #warning defined __VA_ARGS__ __COUNTER__ __LINE__ cleanup packed
aligned section alias weak vector_size regparm mode'''.split()]
NUMS = [b'0xffffffffffffffff', b'-0x8000000000000000', b'99999999999999999999', b'0', b'1<<31', b'0x80000000', b'1e5000', b'0x1p20000', b"'abcd'", b'1.1.1', b'0x', b'08', b'0b2', b'1e', b'10000000000u']
NAMES = re.compile(rb'[A-Za-z_]\w*')


def mutate(r, t, other):
    T, O = TOK.findall(t), TOK.findall(other)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not T: break
        k, i = r.randrange(13), r.randrange(len(T))
        j = min(len(T), i + r.choice([1, 1, 2, 5, 20]))
        if k == 0: del T[i:j]
        elif k == 1: T[i:i] = T[i:j]
        elif k == 2: T[i] = r.choice(POOL)
        elif k == 3: T.insert(i, b' ' + r.choice(POOL) + b' ')
        elif k == 4:
            q = r.randrange(len(T))
            T[i], T[q] = T[q], T[i]
        elif k == 5: T = T[:i]
        elif k == 6 and O:
            q = r.randrange(len(O))
            T[i:j] = O[q:q + r.choice([1, 3, 10, 40])]
        elif k == 7: T[i] = T[i][:r.randrange(len(T[i]) + 1)] + bytes([r.randrange(256)]) + T[i][r.randrange(len(T[i]) + 1):]
        elif k == 8: T[i:j] = [T[r.randrange(len(T))]]
        elif k == 9: T[i:i] = [r.choice(POOL)] * r.choice([2, 10, 60])
        elif k == 10:
            I = [i for i, x in enumerate(T) if x[:1].isdigit()]
            for i in r.sample(I, min(len(I), r.choice([1, 2, 5]))): T[i] = r.choice(NUMS)
        elif k == 11:       # one name for another
            I = [i for i, x in enumerate(T) if NAMES.match(x)]
            if I: T[r.choice(I)] = T[r.choice(I)]
        elif k == 12:       # a longer word
            T[i] = (T[i][:20] or b'x') * r.choice([20, 200, 3000])
    return b''.join(T)


N = '''0x7fffff00 0x7ffffff0 0x80000000 0xffffffff 0x100000000 0x7fffffffffffffff 0x8000000000000000 0xffffffffffffffff -1 -0x7fffffff-1
(-0x7fffffffffffffffLL-1) 0 1 2 7 8 31 32 33 63 64 65 127 128 255 256 4096 65535 65536 1.5 1e30 "s" (int*)0 x main (char)-1 1/0 sizeof(int) 'a' L'b' {1} (1,2) -x'''.split()
TEMPLATES = '''char a[@&7];|int a[@?1:2][2];|char a[]={[@&63]=1};|struct{int b:@;}s;|struct{long long b:@;unsigned c:@;}s;|struct{_Bool b:@;char c:@;}s;|
int x=@;|long x=@,y=@;|int f(){return @ / @;}|long long f(){return @ % @;}|int f(int x){return x<<@;}|int f(){return @<<@;}|int f(){return @>>@;}|unsigned f(){return (unsigned)@*@;}|
int a __attribute__((aligned(@)));|struct S{char c;}__attribute__((aligned(@),packed))s;|_Alignas(@)int a;|int f(int x){switch(x){case @:return 1;case @ ... @:return 2;}return 3;}|
enum E{A=@,B,C=@,D};int f(){return A+B+C+D;}|
#if @ / @ + (@ << @) - @ * @
#endif
int x;|
#if (@) % (@) || @ >> @ == -@
#error x
#endif|int f(){asm("mov $@,%eax");return 0;}|asm(".byte @,@");|asm(".quad @");|asm("a: .long @+@-a");|asm(".p2align @&15");|asm(".size a,@");|asm("mov @(%rax,%rbx,@),%ecx");|asm(".set v,@*@/@\\n.long v");|asm(".if @\\nnop\\n.endif");|asm("jmp @");|
asm(".rept @&15\\nnop\\n.endr");|asm("add $@,@(%rip)");|asm(".string \\"@\\",\\"\\\\@\\"");|asm("1: jmp @b");|asm("mov %@,%eax");|asm(".section @");|asm(".pushsection .x,@\\n.popsection\\n.popsection");|asm(".symver @,@");|
int f(int x){asm("@":"=r"(x):"@"(x));return x;}|int f(int x){asm("mov %@,%0":"=r"(x):"0"(x));return x;}|int f(int x){asm("":"+r"(x),"=@"(x)::"@");return x;}|
int a=sizeof(char[@&63]);|int a[2]={[@&1]=3};|int f(){int a[3]={[@&1 ... @&2]=1};return a[@];}|char*p="a"+@;|int a[10];int*p=&a[@];|struct S{int x[4];};int o=__builtin_offsetof(struct S,x[@]);|
double d=@;float g=@;int f(){return d==@;}|long double e=@;|int f(){return (char)@+(short)@+(_Bool)@+(long)@;}|int f(){return __builtin_return_address(@&7)!=0;}|_Static_assert(@,"x");|
#pragma pack(@)
struct{char c;long l;}s;|
#pragma pack(push,@)
struct{char c;long l;}s;|
#pragma pack(pop)
#pragma pack(@
int y;|
#line @ "f"
int x=__LINE__+1;|
#line @
#error x|int x='\\@';|int x='@';|char*s="\\x@\\u@\\U@";|int x=L'\\x@';|int f(void);int f(){return f()+@;}|__attribute__((section("@")))int x;|__attribute__((regparm(@)))int f(int a){return a;}|__attribute__((__mode__(@)))int f;|
__attribute__((vector_size(@)))int f;|void f(){struct{char c[@&63];}s,t;s=t;}|int g();int f(){struct{char c[@&127];}s;return g(s);}|int f(){return __builtin_choose_expr(@,@,@);}|int f(int x){return __builtin_constant_p(@)+__builtin_expect(x,@);}|
int f(){goto *@;}|long f(char*p){return *(long*)(@)+p[@];}|int x[2]={@,@};|int f(){return((int[]){@,@})[@&1];}|int f(){return @?@:@;}|int f(){@;@;return @,@;}|int f(){return @ && @ || !@;}|int f(){return -@+~@;}|int f(int n){int a[n+@];return sizeof a;}|
typedef int T[@&15];T t={@};|struct S{int a,b[3];char c[];}s={@,{@,@},@};|union U{int a;double b;}u={.b=@,.a=@};|int f(float x){return x+@<@;}|int f(){int x=@;x+=@;x>>=@;x%=@;return x++ + --x;}|int f(){static int x=@;return x;}|
int f(){return _Generic(@,int:1,double:2,char*:3,default:@);}|void f(){for(int i=@;i<@;i+=@);}|void f(){if(@)while(@)do;while(@);}|
#define M(x) #x @
#define N(x,y) x##y
int f(){return N(@,@) M(@);}|__typeof__(@) x;|int x=__builtin_types_compatible_p(int,__typeof__(@));|int f(){return __builtin_bswap32(@)+__builtin_popcount(@);}|int f(int*p){return __atomic_fetch_add(p,@,@)+__sync_lock_test_and_set(p,@);}|int f(int*p){return __atomic_load_n(p,@);}|asm(".ident @");|asm(".type @,@");|asm(".size @,@");|asm(".option @");|asm(".@ @");|__attribute__((@(@)))int x;|
extern int y __attribute__((alias("@")));|int f()__attribute__((visibility("@")));|int f(){int x;__attribute__((cleanup(@)))int y;return x;}|register int x asm("@");|int y asm("@");|void f(){__label__ @;}|int x=@@;|int @;|int f(@){return 0;}|@ f(){}|struct @{@;};|goto @;'''.split('|')


def extreme(r):
    """One or a few declarations with constants no one expected there."""
    out = []
    for i in range(r.choice([1, 1, 1, 2])):
        t = r.choice(TEMPLATES)
        # one side of a mask or a conditional stays a plain number
        t = re.sub('@(?=[&?])', lambda m: r.choice(['1', '0', '7', '13', '100', '63', '-1']), t)
        out.append(re.sub('@', lambda m: r.choice(N), t))
    return ('\n'.join(out) + '\n').encode()


def deep(r):
    """Deep but finite nesting and long lists."""
    n = r.choice([10, 60, 300])
    m = n * r.choice([1, 10, 40])
    return r.choice([
        lambda: 'int f(){return ' + '(' * n + '1' + ')' * n + ';}',
        lambda: 'int f(int x){' + 'if(x){' * n + '}' * n + 'return x;}',
        lambda: 'int f(){return ' + '+'.join(['1'] * m) + ';}',
        lambda: 'int f(int x){return ' + '-~!'[r.randrange(3)] * 0 + '- ' * n + 'x;}',
        lambda: 'int ' + '*' * n + 'x;',
        lambda: 'int ' + '(*' * n + 'x' + ')()' * n + ';',
        lambda: 'int x' + '[1]' * n + ';',
        lambda: 'int x' + '[1]' * n + '=' + '{' * n + '1' + '}' * n + ';',
        lambda: ''.join('struct s%d{' % i for i in range(n)) + 'int x;' + ''.join('}m%d;' % i for i in range(n)),
        lambda: '#define A0 1\n' + ''.join('#define A%d A%d A%d\n' % (i + 1, i, i) for i in range(12)) + 'char x[]={' + ','.join(['1'] * m) + '};',
        lambda: '#if 1\n' * min(n, 60) + '#endif\n' * min(n, 60),
        lambda: '#if ' + '(' * n + '1' + ')' * n + '\n#endif\n',
        lambda: 'int f(' + ','.join('int a%d' % i for i in range(n)) + '){return a1;}int g(){return f(' + ','.join('%d' % i for i in range(n)) + ');}',
        lambda: '#define M(' + ','.join('a%d' % i for i in range(n)) + ') a1\nint x=M(' + ','.join('%d' % i for i in range(n)) + ');',
        lambda: 'int f(int x){switch(x){' + ''.join('case %d:x++;' % i for i in range(m)) + '}return x;}',
        lambda: 'enum{' + ','.join('e%d' % i for i in range(m)) + '};',
        lambda: 'char*s=' + '"abc" ' * m + ';',
        lambda: 'char*s="' + 'y' * (m * 20) + '";',
        lambda: 'int ' + 'z' * m + ';',
        lambda: 'int f(int x){return ' + 'x?' * n + '1' + ':2' * n + ';}',
        lambda: 'void f(){' + ''.join('l%d:;' % i for i in range(m)) + ''.join('goto l%d;' % i for i in range(m)) + '}',
        lambda: 'void f(){asm("' + 'nop\\n' * m + '");}',
        lambda: 'int f(){' + 'int x;{' * n + '}' * n + 'return 0;}',
        lambda: '\\\n' * m + 'int x;',
        lambda: '/*' + '*' * m + '/int x;' + '//' + 'w' * m,
        lambda: '#pragma pack(push,1)\n' * r.choice([1, 5, 7]) + 'int x;\n',
        lambda: '#define F(x) x F\n' + 'int a = F(1)' + '(1)' * n + ';',
        lambda: 'int f(){return ' + 'sizeof ' * n + '1;}',
        lambda: 'int f(){return ' + '(int)' * n + '1;}',
    ])().encode() + b'\n'


# One construct repeated N times; SIZES are what the fixed tables and buffers of a
# compiler like to be, one less and one more.
SIZES = sorted({b + d for b in (1, 2, 4, 6, 8, 10, 16, 20, 30, 32, 50, 60, 64, 100, 127, 128, 250, 255, 256, 260, 500, 512, 1000, 1023, 1024, 2040, 2048, 4092, 4096, 8192, 16384, 65536) for d in (-1, 0, 1)} - {0})
def _j(f, n, sep=','):
    return sep.join(f(i) for i in range(n))
SCALED = {
 'frac': lambda n: 'double d=1.' + '1' * n + ';',
 'intdig': lambda n: 'double d=' + '1' * n + '.5;',
 'expdig': lambda n: 'double d=1e-' + '1' * n + ';',
 'fexpdig': lambda n: 'float d=1.5e' + '0' * n + '1f;',
 'hexint': lambda n: 'double d=0x' + 'a' * n + 'p1;',
 'hexfrac': lambda n: 'double d=0x1.' + '8' * n + 'p-3L;',
 'hexexp': lambda n: 'double d=0x1p' + '0' * n + '7;',
 'binlit': lambda n: 'long d=0b' + '1' * n + ';',
 'octlit': lambda n: 'long d=0' + '7' * n + ';',
 'declit': lambda n: 'long d=' + '9' * n + 'ULL;',
 'ppnum': lambda n: '#define S(x) #x\nchar*s=S(0x1' + 'e+' * n + ');',
 'ident': lambda n: 'int ' + 'i' * n + '=1;int f(){return ' + 'i' * n + ';}',
 'uident': lambda n: 'int x' + 'é' * n + '=1;',
 'string': lambda n: 'char s[]="' + 's' * n + '";',
 'escapes': lambda n: 'char s[]="' + '\\x41' * n + '";',
 'octesc': lambda n: 'char s[]="' + '\\101' * n + '";',
 'ucn': lambda n: 'char s[]="' + '\\u00e9' * n + '";',
 'hexesc': lambda n: 'char s[]="\\x' + '0' * n + '41";',
 'wstring': lambda n: 'int s[]=L"' + 'é' * n + '";',
 'chars': lambda n: "int c='" + 'c' * n + "';",
 'concat': lambda n: 'char*s=' + '"ab" ' * n + ';',
 'wconcat': lambda n: 'int*s=' + 'L"ab" ' * n + ';',
 'asmops': lambda n: 'void f(){asm volatile(""::' + _j(lambda i: '"i"(%d)' % i, n) + ');}',
 'asmmem': lambda n: 'int x;void f(){asm volatile(""::' + _j(lambda i: '"m"(x)', n) + ');}',
 'asmouts': lambda n: 'int x[70];void f(){asm volatile("":' + _j(lambda i: '"=m"(x[%d])' % (i % 70), n) + ');}',
 'asmmix': lambda n: 'int x;void f(){asm volatile("":"+m"(x),"+r"(x):' + _j(lambda i: '"i"(%d)' % i, n) + ');}',
 'asmnames': lambda n: 'void f(){asm volatile(""::' + _j(lambda i: '[n%d]"i"(%d)' % (i, i), n) + ');}',
 'asmregs': lambda n: 'void f(int x){asm volatile(""::' + _j(lambda i: '"r"(x+%d)' % i, n) + ');}',
 'asmgoto': lambda n: 'void f(){asm goto(""::::' + _j(lambda i: 'l%d' % i, n) + ');' + _j(lambda i: 'l%d:;' % i, n, '') + '}',
 'asmgotoops': lambda n: 'void f(){asm goto(""::' + _j(lambda i: '"i"(1)', min(n, 29)) + '::' + _j(lambda i: 'l%d' % i, n) + ');' + _j(lambda i: 'l%d:;' % i, n, '') + '}',
 'asmclob': lambda n: 'void f(){asm volatile("":::' + _j(lambda i: '"memory"', n) + ');}',
 'asmclobname': lambda n: 'void f(){asm volatile("":::"' + 'q' * n + '");}',
 'asmconstr': lambda n: 'void f(int x){asm volatile(""::"' + 'r' * n + '"(x));}',
 'asmoutc': lambda n: 'void f(int x){asm volatile("":"=' + 'm' * n + '"(x));}',
 'asmsubst': lambda n: 'void f(int x){asm volatile("nop # ' + '%0' * n + '"::"r"(x));}',
 'asmname': lambda n: 'void f(int x){asm volatile("nop # %[' + 'k' * n + ']"::[' + 'k' * n + ']"r"(x));}',
 'asmtext': lambda n: 'asm("' + 'nop;' * n + '");',
 'asmlabel': lambda n: 'asm("' + 'l' * n + ': .quad ' + 'l' * n + '");',
 'asmstr': lambda n: 'asm(".data;.ascii \\"' + 'y' * n + '\\"; .text");',
 'asmsec': lambda n: 'asm(".section .' + 'y' * n + ',\\"aw\\"; .byte 1; .text");',
 'asmexpr': lambda n: 'asm(".long ' + '1+' * n + '1");',
 'asmparen': lambda n: 'asm(".long ' + '(' * min(n, 300) + '1' + ')' * min(n, 300) + '");',
 'asmbytes': lambda n: 'asm(".data;.byte ' + _j(str, n) .replace('1', '1') + '; .text");',
 'asmpush': lambda n: 'asm("' + '.pushsection .data;' * min(n, 300) + '.popsection;' * min(n, 300) + '");',
 'asmrept': lambda n: 'asm(".rept %d; nop; .endr");' % n,
 'asmlocal': lambda n: 'asm("' + _j(lambda i: '1: jmp 1b; jmp 2f; 2:', n, ';') + '");',
 'asmalias': lambda n: 'int f() __asm__("' + 'z' * n + '");int g(){return f();}',
 'alias': lambda n: 'int f(){return 1;}int g() __attribute__((alias("' + 'f' * n + '")));',
 'section': lambda n: 'int x __attribute__((section(".' + 'f' * n + '")))=1;',
 'attrs': lambda n: 'int x ' + '__attribute__((unused))' * n + ';',
 'attrlist': lambda n: 'int x __attribute__((' + _j(lambda i: 'foo%d' % i, n) + '));',
 'params': lambda n: 'int f(' + _j(lambda i: 'int a%d' % i, n) + '){return a0;}int g(){return f(' + _j(str, n) + ');}',
 'fparams': lambda n: 'double f(' + _j(lambda i: 'double a%d' % i, n) + '){return a0;}double g(){return f(' + _j(str, n) + ');}',
 'ldparams': lambda n: 'long double f(' + _j(lambda i: 'long double a%d' % i, n) + '){return a0;}long double g(){return f(' + _j(str, n) + ');}',
 'sparams': lambda n: 'struct s{long a[3];};long f(' + _j(lambda i: 'struct s a%d' % i, n) + '){return a0.a[0];}long g(struct s s){return f(' + _j(lambda i: 's', n) + ');}',
 'varargs': lambda n: 'int p(const char*,...);int g(){return p("",' + _j(lambda i: ('%d', '%d.5', '%dll', '"%d"')[i % 4] % i, n) + ');}',
 'oldstyle': lambda n: 'int f(' + _j(lambda i: 'a%d' % i, n) + ')' + _j(lambda i: 'int a%d;' % i, n, '') + '{return a0;}',
 'nestcall': lambda n: 'int f(int);int g(){return ' + 'f(' * min(n, 300) + '1' + ')' * min(n, 300) + ';}',
 'structarg': lambda n: 'struct s{char c[%d];};struct s f(struct s a){return a;}int g(struct s*p){return f(*p).c[0];}' % n,
 'mparams': lambda n: '#define M(' + _j(lambda i: 'a%d' % i, n) + ') a0\nint x=M(' + _j(str, n) + ');',
 'mbody': lambda n: '#define M ' + _j(lambda i: '%d+' % i, n, '') + '1\nint x=M;',
 'mchain': lambda n: '#define M0 1\n' + _j(lambda i: '#define M%d M%d\n' % (i + 1, i), min(n, 1000), '') + 'int x=M%d;' % min(n, 1000),
 'mnest': lambda n: '#define M(x) x\nint x=' + 'M(' * min(n, 300) + '1' + ')' * min(n, 300) + ';',
 'mstr': lambda n: '#define S(x) #x\nchar*s=S(' + '"\\" ' * n + ');',
 'mpaste': lambda n: '#define P(a,b) a##b\nint P(' + 'a' * n + ',' + 'b' * n + ');',
 'mpastes': lambda n: '#define P(a) ' + '##'.join(['a'] * max(n, 2)) + '\nint P(x);',
 'vaargs': lambda n: '#define V(...) #__VA_ARGS__\nchar*s=V(' + _j(str, n) + ');',
 'defs': lambda n: _j(lambda i: '#define D%d %d\n' % (i, i), n, '') + 'int x=D0;' + _j(lambda i: '\n#undef D%d' % i, n, '') + '\n',
 'pushmac': lambda n: '#define X 1\n' + '#pragma push_macro("X")\n' * n + '#pragma pop_macro("X")\n' * (n + 1) + 'int x=X;',
 'packs': lambda n: '#pragma pack(push,1)\n' * n + 'int x;\n' + '#pragma pack(pop)\n' * n,
 'ifs': lambda n: '#if 1\n' * n + 'int x;\n' + '#endif\n' * n,
 'elifs': lambda n: '#if 0\n' + '#elif 0\n' * n + '#else\nint x;\n#endif\n',
 'ifexpr': lambda n: '#if ' + '1+' * n + '1\nint x;\n#endif\n',
 'ifident': lambda n: '#ifdef ' + 'i' * n + '\n#else\nint x;\n#endif\n',
 'include': lambda n: '#include "' + 'i' * n + '.h"\n',
 'incdir': lambda n: '#include <' + 'd/' * n + 'x.h>\n',
 'incself': lambda n: '#ifndef N\n#define N 0\n#endif\n#if __INCLUDE_LEVEL__ < %d\n#include __FILE__\n#endif\n' % min(n, 300),
 'once': lambda n: '#pragma once\n' * n + 'int x;\n',
 'linefile': lambda n: '#line 5 "' + 'f' * n + '"\nint x=;\n',
 'linenum': lambda n: '#line ' + '1' * n + '\nint x=;\n',
 'errormsg': lambda n: '#error ' + 'e' * n + '\n',
 'warnmsg': lambda n: '#warning ' + 'e ' * n + '\n',
 'pragma': lambda n: '#pragma ' + 'p' * n + '\n',
 'directive': lambda n: '#' + 'p' * n + '\n',
 'comment': lambda n: '/*' + '*' * n + '/int x;//' + 'c' * n,
 'splice': lambda n: 'in' + '\\\n' * n + 't x;',
 'spaces': lambda n: ' ' * n + 'int' + '\t' * n + 'x;' + '\n' * n,
 'nul': lambda n: 'int x;' + '\0' * n + 'int y;',
 'enums': lambda n: 'enum{' + _j(lambda i: 'e%d' % i, n) + '};',
 'cases': lambda n: 'int f(int x){switch(x){' + _j(lambda i: 'case %d:x++;' % (i * 7 % n), n, '') + '}return x;}',
 'ranges': lambda n: 'int f(int x){switch(x){' + _j(lambda i: 'case %d...%d:x++;' % (i * 3, i * 3 + 1), n, '').replace('...', ' ... ') + '}return x;}',
 'switches': lambda n: 'int f(int x){' + 'switch(x){case 1:' * min(n, 300) + '}' * min(n, 300) + 'return x;}',
 'loops': lambda n: 'int f(int x){' + 'while(x){' * min(n, 300) + 'break;' + '}' * min(n, 300) + 'return x;}',
 'labels': lambda n: 'void f(){' + _j(lambda i: 'l%d:' % i, n, '') + ';' + _j(lambda i: 'goto l%d;' % i, n, '') + '}',
 'localls': lambda n: 'void f(){__label__ ' + _j(lambda i: 'l%d' % i, n) + ';' + _j(lambda i: 'l%d:;' % i, n, '') + '}',
 'labaddr': lambda n: 'void f(int k){static void*t[]={' + _j(lambda i: '&&l%d' % i, n) + '};goto*t[k];' + _j(lambda i: 'l%d:;' % i, n, '') + '}',
 'members': lambda n: 'struct s{' + _j(lambda i: 'int m%d;' % i, n, '') + '};int f(struct s*p){return p->m%d;}' % (n - 1),
 'bits': lambda n: 'struct s{' + _j(lambda i: 'int m%d:%d;' % (i, i % 31 + 1), n, '') + '}x={' + _j(str, n) + '};',
 'anon': lambda n: 'struct s{' + 'struct{' * min(n, 300) + 'int x;' + '};' * min(n, 300) + '};int f(struct s*p){return p->x;}',
 'inits': lambda n: 'int a[]={' + _j(str, n) + '};',
 'sinits': lambda n: 'char a[][4]={' + _j(lambda i: '"ab"', n) + '};',
 'pinits': lambda n: 'int x;int*a[]={' + _j(lambda i: '&x+%d' % i, n) + '};',
 'desig': lambda n: 'int a[]={' + _j(lambda i: '[%d]=%d' % (n - 1 - i, i), n) + '};',
 'desigr': lambda n: 'int a[%d]={[0 ... %d]=1};' % (n, n - 1),
 'ldesig': lambda n: 'int f(){int a[%d]={[%d]=1};return a[0];}' % (n, n - 1),
 'flex': lambda n: 'struct s{int n;char c[];}x={1,{' + _j(lambda i: '1', n) + '}};',
 'compound': lambda n: 'int*f(){return(int[]){' + _j(str, n) + '};}',
 'dims': lambda n: 'int x' + '[1]' * min(n, 300) + ';',
 'ptrs': lambda n: 'int ' + '*' * min(n, 1000) + 'x;',
 'typedefs': lambda n: 'typedef int t0;' + _j(lambda i: 'typedef t%d t%d;' % (i, i + 1), n, '') + 't%d x;' % n,
 'funcs': lambda n: _j(lambda i: 'int f%d(){return %d;}' % (i, i), n, ''),
 'inlines': lambda n: _j(lambda i: 'static inline int f%d(){return %d;}' % (i, i), n, '') + 'int g(){return f0();}',
 'externs': lambda n: _j(lambda i: 'extern int v%d;' % i, n, '') + 'int g(){return ' + _j(lambda i: 'v%d' % i, n, '+') + ';}',
 'statics': lambda n: _j(lambda i: 'static int v%d=%d;' % (i, i), n, ''),
 'commons': lambda n: _j(lambda i: 'int v%d;' % i, n, ''),
 'locals': lambda n: 'int f(){' + _j(lambda i: 'int v%d=%d;' % (i, i), n, '') + 'return v0;}',
 'vlas': lambda n: 'int f(int n){' + _j(lambda i: 'int v%d[n];' % i, n, '') + 'return v0[0];}',
 'scopes': lambda n: 'int f(){int x=0;' + '{int x=1;' * min(n, 300) + '}' * min(n, 300) + 'return x;}',
 'cleanups': lambda n: 'void c(int*p);void f(){' + _j(lambda i: 'int v%d __attribute__((cleanup(c)));' % i, min(n, 1100), '') + '}',
 'cleangoto': lambda n: 'void c(int*p);void f(){' + _j(lambda i: '{int v __attribute__((cleanup(c)));if(v)goto out;', min(n, 250), '') + '}' * min(n, 250) + 'out:;}',
 'sum': lambda n: 'int f(int x){return ' + 'x+' * n + 'x;}',
 'rsum': lambda n: 'int f(int x){return ' + '(x+' * min(n, 300) + 'x' + ')' * min(n, 300) + ';}',
 'frsum': lambda n: 'double f(double x){return ' + '(x+' * min(n, 300) + 'x' + ')' * min(n, 300) + ';}',
 'land': lambda n: 'int f(int x){return ' + 'x&&' * min(n, 1000) + 'x;}',
 'comma': lambda n: 'int f(int x){return ' + 'x,' * n + 'x;}',
 'assign': lambda n: 'int f(int x){return ' + 'x=' * min(n, 300) + '1;}',
 'ternary': lambda n: 'int f(int x){return ' + 'x?1:' * min(n, 300) + '2;}',
 'index': lambda n: 'int f(int*p){return ' + 'p[' * min(n, 300) + '0' + ']' * min(n, 300) + ';}',
 'arrow': lambda n: 'struct s{struct s*n;};int f(struct s*p){return p' + '->n' * n + '!=0;}',
 'generic': lambda n: 'int x=_Generic(1,' + _j(lambda i: 'struct g%d*:%d' % (i, i), n) + ',int:3);',
 'stmtexpr': lambda n: 'int f(){return ' + '({' * min(n, 200) + '1;' + '})' * min(n, 200) + ';}',
 'choose': lambda n: 'int x=' + '__builtin_choose_expr(1,' * min(n, 300) + '1' + ',2)' * min(n, 300) + ';',
 'offsetof': lambda n: 'struct s{int a[%d];};int x=__builtin_offsetof(struct s,a[%d]);' % (n, n - 1),
 'sassert': lambda n: '_Static_assert(0,"' + 'm' * n + '");',
 'vtmany': lambda n: 'int f(int a,int b){return ' + _j(lambda i: '(a%%(b+%d))*(' % i, min(n, 250), '') + 'a' + ')' * min(n, 250) + ';}',
 'undecl': lambda n: 'int f(){return ' + 'u' * n + '+1;}',
 'nofield': lambda n: 'struct ' + 's' * n + '{int a;};int f(struct ' + 's' * n + '*p){return p->' + 'b' * n + ';}',
 'typemsg': lambda n: 'struct ' + 's' * n + '{int a;};int f(struct ' + 's' * n + '*p){int*q=p;return *p;}',
 'ptrmsg': lambda n: 'int ' + '*' * min(n, 300) + 'p;char*q=' + '*' * 0 + '(int' + '*' * min(n, 300) + ')0;struct s{int a;}x;void f(){x=p;}',
 'fnmsg': lambda n: 'int f(' + _j(lambda i: 'struct t%d*p%d' % (i, i), n) + ');char f(int);',
 'expect': lambda n: 'int f(){ ' + 'x' * n + ' ' + 'y' * n + '; }',
 'strmsg': lambda n: 'int f(){ 1 "' + 'y' * n + '"; }',
 'nummsg': lambda n: 'int f(){ 1 ' + '2' * min(n, 19) + '; }',
}


def scaled(r, name):
    """The construct at one of the sizes."""
    n = r.choice(SIZES) if r.random() < .9 else r.randrange(1, 3000)
    return n, (SCALED[name](n) + '\n').encode()
