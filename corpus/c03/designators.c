#include <stdio.h>
#include <stddef.h>
int X,Y;
int m[3][3] = {[1][1]=7,8,9}, m2[3][3]={[0][2]=9,[2][0]=7,8}, m3[2][3]={1,2,[1]=3,4}, m4[][2]={[1][1]=5,6,[0]=1};
struct S{int a[3];int b;} s[2]={[0].a[1]=3,4,5,6,7};
struct A{ int a; struct {int b,c;}; union {int e; char f[4];}; int d; } x = {.b = 1, 2, 3, 4}, y={.c=5, .a=1, 2,3,4,5}, z={.f[1]=3,4}, z2[2]={[1].c=3,4,5,[0]={1,2,3},[0].b=9};
struct R{int *p; int *q; char s[4];} r[2]={[0].p=&X,[0].q=&Y,[0].s="ab",[1]={&X,&Y},[1].q=0,[0].s[1]='z'};
struct A g={ b: 3, 4, a: 7 };
struct N { struct {int x,y;} p[2]; int k; } nn = {.p[1].x = 3, 4, 5}, n2={ 1,2,3,.k=9}, n3={1,.p[0].y=2,3,4,5};
int rg[4][2]={[1 ... 2]={3,4},[0][1]=8,9};
#define D(x) do{ unsigned char*c=(void*)&x; printf(#x); for(size_t i=0;i<sizeof x;i++)printf(" %02x",c[i]); puts("");}while(0)
int main(void){
D(m);D(m2);D(m3);D(m4);D(s);D(x);D(y);D(z);D(z2);D(g);D(nn);D(n2);D(n3);D(rg);
for(int i=0;i<2;i++)printf("%d %d %.4s\n",r[i].p==&X,r[i].q==&Y?1:r[i].q?2:0,r[i].s);
int v=X+5;
int m[3][3] = {[1][1]=v,8,9}, m2[3][3]={[0][2]=9,[2][0]=v,8}, m3[2][3]={1,2,[1]=v,4}, m4[][2]={[1][1]=v,6,[0]=1};
struct S s[2]={[0].a[1]=v,4,5,6,7};
struct A x = {.b = v, 2, 3, 4}, y={.c=5, .a=v, 2,3,4,5}, z={.f[1]=v,4}, z2[2]={[1].c=v,4,5,[0]={1,2,3},[0].b=9};
struct A g={ b: v, 4, a: 7 };
struct N nn = {.p[1].x = v, 4, 5}, n2={ 1,2,v,.k=9}, n3={1,.p[0].y=v,3,4,5};
int rg[4][2]={[0][1]=v,[1]={3,4},[2]={3,4},[0][1]=8,9};
D(m);D(m2);D(m3);D(m4);D(s);D(x);D(y);D(z);D(z2);D(g);D(nn);D(n2);D(n3);D(rg);
return 0;}
