// Statements: branches, loops, scoping, assignment and return, for every value of conditions and operands; effects are compared in order with a model of each program.
// QUICK ifs   -DG=1 time=300 reach=ok
// QUICK loops -DG=2 -DM=4 time=300 reach=ok
// QUICK scope -DG=3 -DM=3 time=300 reach=ok
// QUICK asgn  -DG=4 time=300 reach=ok
// QUICK top   -DG=5 -DM=3 time=300 reach=ok
// QUICK lam   -DG=6 time=300 reach=ok
// QUICK gen0  -DG=7 -DLO=0 -DHI=4 -DTOP=2 -DDEPTH=0 time=300 reach=ok
// QUICK gen1  -DG=7 -DLO=5 -DHI=5 -DTOP=2 -DDEPTH=0 time=300 reach=ok
// QUICK gen4  -DG=7 -DLO=6 -DHI=6 -DTOP=2 -DDEPTH=0 time=300 reach=ok
// QUICK gen2  -DG=7 -DLO=7 -DHI=8 -DTOP=2 -DDEPTH=0 time=300 reach=ok
// QUICK gen3  -DG=7 -DLO=9 -DHI=10 -DTOP=2 -DDEPTH=0 time=300 reach=ok
// THOROUGH gen0  -DG=7 -DLO=0 -DHI=4 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen1  -DG=7 -DLO=5 -DHI=5 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen2  -DG=7 -DLO=6 -DHI=6 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen3  -DG=7 -DLO=7 -DHI=7 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen4  -DG=7 -DLO=8 -DHI=8 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen5  -DG=7 -DLO=9 -DHI=9 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH gen6  -DG=7 -DLO=10 -DHI=10 -DTOP=3 -DDEPTH=1 time=3000
// THOROUGH ifs   -DG=1 time=900
// THOROUGH loops -DG=2 -DM=9 time=2500
// THOROUGH scope -DG=3 -DM=7 time=2500
// THOROUGH asgn  -DG=4 time=900
// THOROUGH top   -DG=5 -DM=7 time=1500
// THOROUGH lam   -DG=6 time=900
#include "vmh.h"
static int32_t tr[64], mt[64]; static int ntr, nmt;
static void m(int32_t v) { if (nmt<64) mt[nmt]=v; ++nmt; }
static int tfun(buzzvm_t v) { buzzvm_lload(v,1); int32_t x=buzzvm_stack_at(v,1)->i.value; if (ntr<64) tr[ntr]=x; ++ntr; return buzzvm_ret1(v); }
/* like t, but in a loop condition: the k-th call of one run answers from the given bits */
static int mnil;
#define NIL (mnil=1,0)
typedef int32_t (*MODEL)(int32_t a, int32_t b, int32_t c);
#define A(x,y) ((int32_t)((uint32_t)(x)+(uint32_t)(y)))
#define S(x,y) ((int32_t)((uint32_t)(x)-(uint32_t)(y)))
#if G==1
#define WIDE 1
static const char SRC[]=
 "function f0(a,b,c) { if(a) if(b) t(1) else t(2)  t(3) }\n"
 "function f1(a,b,c) { if(a) { if(b) t(1) } else t(2)  t(3)  return 9 }\n"
 "function f2(a,b,c) { if(a < 0) { t(1) } else if(a == b) { t(2) } else if(a > c) { t(3) } else { t(4) }  return a }\n"
 "function f3(a,b,c) { if(a == b) {} else { t(1) }  if(a == c) { t(2) } else {}  if(b == c) {}  t(3) }\n"
 "function f4(a,b,c) { if(a < b) { if(b < c) { t(1); t(2); return 1 } t(3) } else { if(c < a) { t(4); return 2 } else { t(5) } t(6) } t(7); return 3 }\n"
 "function f5(a,b,c) {\n  # comment\n  if(a)\n\n    t(1) # other\n  else\n\n    t(2)\n\n  if(not b)\n  {\n    t(3)\n  }\n  else\n  {\n    t(4)\n  }\n  return\n}\n"
 "function f6(a,b,c) \"docstring\" { if(a) return 1 else if(b) return 2 else return 3  t(9) }\n"
 "function f7(a,b,c) { if((a and b) or c) return a  if(a == nil) return 5  return nil }\n"
 "function f8(a,b,c) { return t(a) + t(b) * t(c) }\n"
 "function f9(a,b,c) { g(t(a), t(b), t(c))  var q = {.x = t(1), .y = t(2), .z = t(3)}  if(t(a) == t(b)) t(4) }\n"
 "function g(x,y,z) { t(z) t(y) t(x) }\n"
 "function f10(a,b,c) { t(1) return t(2) }\n"
 "function f11(a,b,c) { if(a) { return b } else { return c } }\n"
 "function f12(a,b,c) { if(a) return\n t(1)\n if(b) return # none\n t(2)  if(c) { return }  return\n}\n"
 "function f13(a,b,c) { if(a) return;\n t(1)\n return (b)\n - c }\n";
static int32_t m0(int32_t a,int32_t b,int32_t c) { if (a) { if (b) m(1); else m(2); } m(3); return NIL; }
static int32_t m1(int32_t a,int32_t b,int32_t c) { if (a) { if (b) m(1); } else m(2); m(3); return 9; }
static int32_t m2(int32_t a,int32_t b,int32_t c) { if (a<0) m(1); else if (a==b) m(2); else if (a>c) m(3); else m(4); return a; }
static int32_t m3(int32_t a,int32_t b,int32_t c) { if (a!=b) m(1); if (a==c) m(2); m(3); return NIL; }
static int32_t m4(int32_t a,int32_t b,int32_t c) { if (a<b) { if (b<c) { m(1); m(2); return 1; } m(3); } else { if (c<a) { m(4); return 2; } else m(5); m(6); } m(7); return 3; }
static int32_t m5(int32_t a,int32_t b,int32_t c) { if (a) m(1); else m(2); if (!b) m(3); else m(4); return NIL; }
static int32_t m6(int32_t a,int32_t b,int32_t c) { return a?1:b?2:3; }
static int32_t m7(int32_t a,int32_t b,int32_t c) { if ((a&&b)||c) return a; return NIL; }
static int32_t m8(int32_t a,int32_t b,int32_t c) { m(a); m(b); m(c); return (int32_t)((uint32_t)a+(uint32_t)b*(uint32_t)c); }
static int32_t m9(int32_t a,int32_t b,int32_t c) { m(a); m(b); m(c); m(c); m(b); m(a); m(1); m(2); m(3); m(a); m(b); if (a==b) m(4); return NIL; }
static int32_t m10(int32_t a,int32_t b,int32_t c) { m(1); m(2); return 2; }
static int32_t m11(int32_t a,int32_t b,int32_t c) { return a?b:c; }
static int32_t m12(int32_t a,int32_t b,int32_t c) { if (!a) { m(1); if (!b) m(2); } return NIL; }
static int32_t m13(int32_t a,int32_t b,int32_t c) { if (a) return NIL; m(1); return S(b,c); }
static const MODEL MD[]={m0,m1,m2,m3,m4,m5,m6,m7,m8,m9,m10,m11,m12,m13};
#elif G==2
static const char SRC[]=
 "function f0(a,b,c) { var i = 0  while(i < a) { t(i)  i = i + 1 }  return i }\n"
 "function f1(a,b,c) { var i = a  while(i) i = i - 1  return i }\n"
 "function f2(a,b,c) { var s = 0  for(i = 0, i < a, i = i + 1) { s = s + i  if(i == b) { t(7) return s }  t(i) }  return s }\n"
 "function f3(a,b,c) { var i = 0  while(i < a) { var j = 0  while(j < b) { if(j == i) t(j) else { var k = i + j  t(10 + k) }  j = j + 1 }  i = i + 1 }  return i }\n"
 "function f4(a,b,c) { for(i = 0, i < a, i = i + 1) for(j = 0, j < b, j = j + 1) if(i < j) t(i + 10 * j) else if(i == c) return 77  return 5 }\n"
 "function f5(a,b,c) { x = a  for(t(1), t(x) > 0, dec(2)) { t(3) if(x == b) t(4) }  return x }\n"
 "function dec(n) { t(n)  x = x - 1 }\n"
 "function f6(a,b,c) { while(0) t(1)  for(i = 3, i < 3, i = i + 1) t(2)  while(nil) { t(3) }  return 1 }\n"
 "function f7(a,b,c) { var i = 0  while(1) { i = i + 1  if(i > a) { return i }  if(i == b) { var z = i  t(z) } else { t(50) } } }\n"
 "function f8(a,b,c) { var i = 0  while(i < a) { var u  if(u == nil) t(1) else t(2)  u = i  t(u)  i = i + 1 }  return i }\n"
 "function f9(a,b,c) { if(a) { var i = 0  while(i < b) { i = i + 1  t(i) } t(60) } else { for(i = 0, i < c, i = i + 1) {} t(i) }  return 3 }\n";
static int32_t m0(int32_t a,int32_t b,int32_t c) { int i=0; while (i<a) m(i++); return i; }
static int32_t m1(int32_t a,int32_t b,int32_t c) { return 0; }
static int32_t m2(int32_t a,int32_t b,int32_t c) { int s=0; for (int i=0;i<a;i++) { s+=i; if (i==b) { m(7); return s; } m(i); } return s; }
static int32_t m3(int32_t a,int32_t b,int32_t c) { for (int i=0;i<a;i++) for (int j=0;j<b;j++) if (i==j) m(j); else m(10+i+j); return a<0?0:a; }
static int32_t m4(int32_t a,int32_t b,int32_t c) { for (int i=0;i<a;i++) for (int j=0;j<b;j++) if (i<j) m(i+10*j); else if (i==c) return 77; return 5; }
static int32_t m5(int32_t a,int32_t b,int32_t c) { int x=a; m(1); for (;;) { m(x); if (!(x>0)) break; m(3); if (x==b) m(4); m(2); x--; } return x; }
static int32_t m6(int32_t a,int32_t b,int32_t c) { return 1; }
static int32_t m7(int32_t a,int32_t b,int32_t c) { int i=0; for (;;) { i++; if (i>a) return i; m(i==b?i:50); } }
static int32_t m8(int32_t a,int32_t b,int32_t c) { for (int i=0;i<a;i++) { m(1); m(i); } return a<0?0:a; }
static int32_t m9(int32_t a,int32_t b,int32_t c) { if (a) { for (int i=0;i<b;) { i++; m(i); } m(60); } else m(c); return 3; }
static const MODEL MD[]={m0,m1,m2,m3,m4,m5,m6,m7,m8,m9};
#elif G==3
static const char SRC[]=
 "function f0(a,b,c) { var x = a  if(b) { var y = x  t(y)  if(c) { var z = y + 1  t(z)  y = z }  var w = y  t(w)  x = w }  var y = x + 1  t(x)  return y }\n"
 "function f1(a,b,c) { var x = 1  if(a) { var y = 2  x = y } else { var y = 3  var z = 4  x = y + z }  var y = 5  return x * 10 + y }\n"
 "function f2(a,b,c) { var x = 5  if(1) { if(a) var y = 1 }  t(x)  if(b) var z = 2 else var q = 3  t(x)  var w = 8  t(w)  return x }\n"
 "function f3(a,b,c) { var i = 0  var s = 0  while(i < a) { var p = i * 2  if(p == b) { var q = p + 1  s = s + q } else { var r = 1  var u = 2  s = s + r + u }  i = i + 1 }  var p = 100  return s + p }\n"
 "glob = 1\n"
 "function f4(a,b,c) { if(a) { glob = b  newg = c }  t(glob)  var glob2 = 5  if(a) { var loc = 1  newg2 = loc }  return glob2 }\n"
 "function f5(a,b,c) { var x  t(11)  if(x == nil) t(1)  x = a  var y = x  x = b  t(y)  return x }\n"
 "function f6(a,b,c) { var x = 3  h(x)  t(x)  a = b  t(a)  h(a)  return a }\n"
 "function h(a) { var x = 99  a = x  glob = a }\n"
 "function f7(a,b,c) { var r = fact(c)  var s = fact(1)  return r + s }\n"
 "function fact(n) { var k = n  if(k < 2) { var one = 1  return one }  var rest = fact(k - 1)  t(k)  return k * rest }\n"
 "function f8(a,b,c) { var x = 1  if(a) { var y = 2  if(b) { var z = 3  return x + y + z }  t(y)  return x + y }  var w = 9  return x + w }\n"
 "function f9(a,b,c) { while(a > 0) var x = a  return 4 }\n"
 "function f10(a,b,c) { var x = x  if(x == nil) return 1  return 2 }\n";
static int32_t gl;
static int32_t m0(int32_t a,int32_t b,int32_t c) { int32_t x=a; if (b) { int32_t y=x; m(y); if (c) { y=A(y,1); m(y); } m(y); x=y; } m(x); return A(x,1); }
static int32_t m1(int32_t a,int32_t b,int32_t c) { return (a?2:7)*10+5; }
static int32_t m2(int32_t a,int32_t b,int32_t c) { m(5); m(5); m(8); return 5; }
static int32_t m3(int32_t a,int32_t b,int32_t c) { int32_t s=0; for (int i=0;i<a;i++) s+= 2*i==b ? 2*i+1 : 3; return s+100; }
static int32_t m4(int32_t a,int32_t b,int32_t c) { m(a?b:1); return 5; }
static int32_t m5(int32_t a,int32_t b,int32_t c) { m(11); m(1); m(a); return b; }
static int32_t m6(int32_t a,int32_t b,int32_t c) { m(3); m(b); return b; }
static int32_t m7(int32_t a,int32_t b,int32_t c) { int32_t r=1; for (int k=2;k<=c;k++) { m(k); r*=k; } return r+1; }
static int32_t m8(int32_t a,int32_t b,int32_t c) { if (a) { if (b) return 6; m(2); return 3; } return 10; }
static int32_t m9(int32_t a,int32_t b,int32_t c) { return 4; }
static int32_t m10(int32_t a,int32_t b,int32_t c) { return 1; }
static const MODEL MD[]={m0,m1,m2,m3,m4,m5,m6,m7,m8,m9,m10};
#elif G==4
#define WIDE 1
static const char SRC[]=
 "function f0(a,b,c) { var s = {.x = a, .y = {}}  s.y.z = b  s.y[\"w\"] = c  s[3] = s.y  s[3].z2 = s.x  s.x = 7  return s.y.z + s.y.w + s[3].z2 + s.x }\n"
 "function f1(a,b,c) { var s = {}  var k = \"key\"  s[k] = a  s[k] = s.key + b  s.f = function(q) { return q + c }  return s.f(s[k]) }\n"
 "function f2(a,b,c) { x = a  y = b  x = y  y = c  t(x)  t(y)  x = x - y  return x }\n"
 "function f3(a,b,c) { var s = mk(a)  s.next = mk(b)  s.next.next = mk(c)  s.next.v = s.next.v + s.v  t(s.v)  t(s.next.next.v)  return s.next.v }\n"
 "function mk(n) { return {.v = n} }\n"
 "function f4(a,b,c) { mk(a).v  = 5  var s = mk(b)  set(s, c)  return s.v }\n"
 "function set(q,n) { q.v = n }\n"
 "function f5(a,b,c) { var p = 1  var s = {}  s[p] = a  s[p + 1] = b  s[(s[3] == nil)] = c  p = s[1]  return s[2] + p }\n"
 "function f6(a,b,c) { var s = {.f = {.g = function(q) { return {.r = q} } } }  return s.f.g(a).r + s[\"f\"][\"g\"](b).r + s.f[\"g\"](c).r }\n"
 "function f7(a,b,c) { mk(a)  same(b)  same(same(c))  var s = same(same)  return s(a) - same(same)(b) }\n"
 "function same(x) { return x }\n"
 "function f8(a,b,c) { cnt = 0  var s = {}  s[inc()] = inc()  s[inc()] = a  t(s[1])  return s[3] }\n"
 "function inc() { cnt = cnt + 1  return cnt }\n"
 "function f9(a,b,c) { var s = {.1 = a, .2.5 = b, .k = (c < a)}  t(s[1])  t(s[2.5])  return s.k }\n";
static int32_t m0(int32_t a,int32_t b,int32_t c) { return A(A(A(b,c),a),7); }
static int32_t m1(int32_t a,int32_t b,int32_t c) { return A(A(a,b),c); }
static int32_t m2(int32_t a,int32_t b,int32_t c) { m(b); m(c); return S(b,c); }
static int32_t m3(int32_t a,int32_t b,int32_t c) { m(a); m(c); return A(a,b); }
static int32_t m4(int32_t a,int32_t b,int32_t c) { return c; }
static int32_t m5(int32_t a,int32_t b,int32_t c) { return A(b,c); }
static int32_t m6(int32_t a,int32_t b,int32_t c) { return A(A(a,b),c); }
static int32_t m7(int32_t a,int32_t b,int32_t c) { return S(a,b); }
static int32_t m8(int32_t a,int32_t b,int32_t c) { m(2); return a; }
static int32_t m9(int32_t a,int32_t b,int32_t c) { m(a); m(b); return c<a; }
static const MODEL MD[]={m0,m1,m2,m3,m4,m5,m6,m7,m8,m9};
#elif G==6
#define WIDE 1
static const char SRC[]=
 "function f0(a,b,c) { var g = function(a) { return a }  return g(b) + a }\n"
 "function f1(a,b,c) { var x = a  var g = function(x,z) { var y = x + z  return y - b }  return g(c, x) }\n"
 "function f2(a,b,c) { var g = function(p) { return function(a,q) { return a - q + p } }  return g(b)(c,a) }\n"
 "function f3(a,b,c) { var x = a  var g = function() { x = x + 1  return x }  t(g())  t(g())  return x }\n"
 "function f4(a,b,c) { var s = {.n = a}  s.m = function(n) { var r = self.n  self.n = n  return r }  t(s.m(b))  t(s.m(c))  return s.n }\n"
 "function f5(a,b,c) { var r = 0  if(a == b) { var k = c  r = function(q) { return k + q } } else { var k = a  var l = b  r = function(q) { return k - l + q } }  return r(1) }\n"
 "function f6(a,b,c) { return ap(function(x) { return x + a }, b) - ap(function(x) { if(x == c) { return x }  return a }, b) }\n"
 "function ap(f,x) { return f(x) }\n"
 "function f7(a,b,c) { var g = function(x, y) { if(x) { var z = y  t(z)  return z }  var w = 4  return w }  return g(a, b) + g(0, 1) }\n"
 "function dup(a,a,b) { return b - a }\n"
 "function f8(a,b,c) { return dup(a,b,c) }\n"
 "function selfarg(self,a) { return a - self }\n"
 "function f9(a,b,c) { return selfarg(b,c) }\n"
 "function f10(a,b,c) { if(a) { var k = 1  var l = 2  t(k + l) }  var g = function(q) { return q - b }  var r = g(c)  if(b) { var n = 3  var o = function(z) { return z + n }  r = r + o(a) }  var h = function(w, v) { return w - v }  return r + h(a, b) }\n"
 "function f11(a,b,c) { var i = 0  var r = 0  while(i < 2) { var p = i  var g = function(q) { var s = q + p  if(q) { var d = s  s = d + 1 }  var e = s  return e }  r = r + g(a)  i = i + 1 }  var f = function(y) { return y + r }  return f(c) }\n";
static int32_t m0(int32_t a,int32_t b,int32_t c) { return A(a,b); }
static int32_t m1(int32_t a,int32_t b,int32_t c) { return S(A(c,a),b); }
static int32_t m2(int32_t a,int32_t b,int32_t c) { return A(S(c,a),b); }
static int32_t m3(int32_t a,int32_t b,int32_t c) { m(A(a,1)); m(A(a,1)); return a; }
static int32_t m4(int32_t a,int32_t b,int32_t c) { m(a); m(b); return c; }
static int32_t m5(int32_t a,int32_t b,int32_t c) { return A(a==b?c:S(a,b),1); }
static int32_t m6(int32_t a,int32_t b,int32_t c) { return S(A(b,a),b==c?b:a); }
static int32_t m7(int32_t a,int32_t b,int32_t c) { if (a) { m(b); return A(b,4); } return 8; }
static int32_t m8(int32_t a,int32_t b,int32_t c) { return S(c,b); }
static int32_t m9(int32_t a,int32_t b,int32_t c) { return S(c,b); }
static int32_t m10(int32_t a,int32_t b,int32_t c) { if (a) m(3); int32_t r=S(c,b); if (b) r=A(r,A(a,3)); return A(r,S(a,b)); }
static int32_t m11(int32_t a,int32_t b,int32_t c) { int32_t r=0; for (int i=0;i<2;i++) { int32_t s=A(a,i); if (a) s=A(s,1); r=A(r,s); } return A(c,r); }
static const MODEL MD[]={m0,m1,m2,m3,m4,m5,m6,m7,m8,m9,m10,m11};
#endif
#if G==7
/* every program of a small grammar: the shape is chosen, the data are symbolic, and a reference interpreter says what happens */
enum { KT,KVAR,KSET,KRET,KIF1,KIF,KIFE,KLAM,KLAMS,KAP,KLOOP,NK };
typedef struct N { int k,cond,slot,hide; struct N *a,*b,*next; } N;
static N pool[40]; static int npool, ncond; static char src[1200], *w;
static struct { char name[4]; int lam; } vis[24]; static int nvis;
static void put(const char* s) { while (*s) *w++=*s++; }
static void putn(int n) { if (n>9) *w++='0'+n/10; *w++='0'+n%10; }
static int last(void) { int i=nvis-1; while (vis[i].lam) --i; return i; }
static const char* nm(int i) { return vis[i].name; }
static int decl(int lam) { vis[nvis].name[0]='v'; vis[nvis].name[1]='0'+nvis/10; vis[nvis].name[2]='0'+nvis%10; vis[nvis].name[3]=0; vis[nvis].lam=lam; return nvis++; }
static void conds(N* n) { static const char* C[]={"a","b","c"}; n->cond=ncond++%3; put("if("); put(C[n->cond]); put(") "); }
static N* block(int cnt, int depth, int lo, int hi);
static N* stat(int depth, int lo, int hi) {
  N* n=&pool[npool++]; n->next=n->a=n->b=0; n->k=vf_choose(lo,hi,"stat"); n->slot=last(); int s;
  switch (n->k) {
    case KT: put("t("); put(nm(n->slot)); put(")"); break;
    case KVAR: { int l=n->slot; s=decl(0); put("var "); put(nm(s)); put(" = "); put(nm(l)); put(" + "); putn(s); break; }
    case KSET: put(nm(n->slot)); put(" = "); put(nm(n->slot)); put(" + 10"); break;
    case KRET: conds(n); put("return "); put(nm(n->slot)); break;
    case KIF1: { conds(n); int l=n->slot; s=decl(0); put("var "); put(nm(s)); put(" = "); put(nm(l)); --nvis; break; }
    case KIF: conds(n); put("{ "); n->a=block(1,depth-1,0,NK-1); put(" }"); break;
    case KIFE: conds(n); put("{ "); n->a=block(1,depth-1,0,NK-1); put(" } else { "); n->b=block(1,0,0,KIF1); put(" }"); break;
    case KLAM: case KLAMS: { int l=n->slot; s=decl(1); put("var "); put(nm(s)); put(" = function("); n->hide=vf_choose(0,1,"hide"); int q=nvis; if (n->hide) { vis[q]=vis[l]; vis[q].lam=0; nvis++; } else decl(0); put(nm(q)); put(") { ");
      n->a=block(1,depth-1,0,NK-1); if (n->k==KLAM) { put(" return "); put(nm(q)); } put(" }  "); nvis=s+1; if (n->k==KLAM) put("t("); put(nm(s)); put("("); put(nm(l)); put(n->k==KLAM?"))":")"); break; }
    case KAP: { int l=n->slot; put("t(ap(function(q) { return q - "); put(nm(l)); put(" }, "); put(nm(0)); put("))"); break; }
    case KLOOP: { s=decl(0); put("var "); put(nm(s)); put(" = 0  while("); put(nm(s)); put(" < 2) { "); put(nm(s)); put(" = "); put(nm(s)); put(" + 1  "); n->a=block(1,depth-1,0,NK-1); put(" }"); break; }
  }
  put("\n"); return n; }
static N* block(int cnt, int depth, int lo, int hi) { int save=nvis; N *h=0,**p=&h; if (depth<0) { hi=KIF1; if (lo>hi) lo=0; } for (int i=0;i<cnt;i++) { *p=stat(depth,i?0:lo,i?NK-1:hi); p=&(*p)->next; } nvis=save; return h; }
/* reference: variables live in their scope, a lambda starts every call from the values at its creation */
typedef struct { int32_t v[24]; int n; } ENV;
static int32_t in[3], rv; static int returned;
static void run(N* n, ENV* e) { int save=e->n; for (;n&&!returned;n=n->next) switch (n->k) {
  case KT: m(e->v[n->slot]); break;
  case KVAR: { int32_t x=A(e->v[n->slot],e->n); e->v[e->n++]=x; break; }
  case KSET: e->v[n->slot]=A(e->v[n->slot],10); break;
  case KRET: if (in[n->cond]) { rv=e->v[n->slot]; returned=1; } break;
  case KIF1: break;
  case KIF: if (in[n->cond]) run(n->a,e); break;
  case KIFE: if (in[n->cond]) run(n->a,e); else run(n->b,e); break;
  case KLAM: case KLAMS: { ENV c=*e; int32_t arg=e->v[n->slot]; c.v[c.n++]=0; c.v[c.n]=arg; int q=c.n++; e->n++; run(n->a,&c); if (n->k==KLAM) m(returned?rv:c.v[q]); returned=0; break; }
  case KAP: m(S(e->v[0],e->v[n->slot])); break;
  case KLOOP: { int s=e->n++; e->v[s]=0; while (e->v[s]<2&&!returned) { e->v[s]=A(e->v[s],1); run(n->a,e); } break; }
 } e->n=save; }
#endif
static void same(void) { VF_ASSERTM(ntr==nmt,"the number of effects"); for (int i=0;i<nmt&&i<64;++i) VF_ASSERTM(tr[i]==mt[i],"each effect, in order"); __vf_reach("ok"); }
#if G==7
void vf_main(void) {
  w=src; put("function ap(f,x) { return f(x) }\nfunction f(v00,a,b,c) {\n"); nvis=0; decl(0); strcpy(vis[1].name,"a"); strcpy(vis[2].name,"b"); strcpy(vis[3].name,"c"); for (int i=1;i<4;i++) vis[i].lam=1; nvis=4;
  N *h=0,**p=&h; for (int i=0;i<TOP;i++) { *p=stat(DEPTH,i?0:LO,i?NK-1:HI); p=&(*p)->next; } int l=last(); put("t("); put(nm(l)); put(") "); if (vf_choose(0,1,"ret")) { put("return "); put(nm(l)); } else { put("return function(z) { return z }"); l=-1; } put(" }\n"); *w=0;
  buzzvm_t vm=vmh_load(1,src); vmh_setc(vm,"t",tfun); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"the definitions run");
  int32_t x=vf_i32("x"); for (int i=0;i<3;i++) in[i]=vf_i32("in");
  vm->state=BUZZVM_STATE_READY; buzzvm_pushi(vm,1234); buzzvm_push(vm,vmh_get(vm,"f")); buzzvm_pushi(vm,x); for (int i=0;i<3;i++) buzzvm_pushi(vm,in[i]); buzzvm_closure_call(vm,4);
  VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"the function runs to its end"); if (vm->state!=BUZZVM_STATE_READY) return; VF_ASSERTM(buzzvm_stack_top(vm)==2&&vmh_isi(buzzvm_stack_at(vm,2),1234)&&vm->lsyms==NULL,"exactly one result, nothing else is left behind");
  ENV e; e.n=4; e.v[0]=x; for (int i=0;i<3;i++) e.v[i+1]=in[i]; 
  /* the top-level statements share the function's scope */
  for (N* n=h;n&&!returned;n=n->next) { N one=*n; one.next=0; int before=e.n; run(&one,&e); if (!returned) e.n=before+(n->k==KVAR||n->k==KLAM||n->k==KLAMS||n->k==KLOOP); }
  buzzobj_t r=buzzvm_stack_at(vm,1); if (!returned) m(e.v[l<0?last():l]);
  if (returned) VF_ASSERTM(vmh_isi(r,rv),"the returned value"); else if (l>=0) VF_ASSERTM(vmh_isi(r,e.v[l]),"the returned value");
  else { VF_ASSERTM(r->o.type==BUZZTYPE_CLOSURE,"the returned lambda"); buzzvm_pop(vm); buzzvm_push(vm,r); buzzvm_pushi(vm,77); buzzvm_closure_call(vm,1); VF_ASSERTM(vm->state==BUZZVM_STATE_READY&&vmh_isi(buzzvm_stack_at(vm,1),77),"the returned lambda gets its argument"); }
  same(); }
#elif G==5
static const char SRC[]=
 "t(1)\n"
 "if(a < b) { var y = a  t(y)  if(c) { var z = b  t(z) } } else { t(2) }\n"
 "i = 0\n while(i < c) { var q = i * 2  t(q)  i = i + 1 }\n"
 "if(c) var w = a else t(5)\n"
 "for(k = 0, k < c, k = k + 1) { if(k == 1) { var v = k  fn = function(x) { return x + k } } }\n"
 "if(c > 1) { t(fn(a)) }\n"
 "if(a) { lam = function(x, y) { var u = x  if(y) { var n = u  return n }  return b }  t(lam(b, c)) }\n"
 "function later(p) { return p + i }\n"
 "t(later(b))\n"
 "var last = 3\n t(last)\n"
 "obj = {.f = function(s) { return self.v - s }, .v = a}\n t(obj.f(b))\n";
void vf_main(void) {
  int32_t a=vf_i32("a"), b=vf_i32("b"), c=vf_choose(0,M,"c"); buzzvm_t vm=vmh_load(1,SRC); vmh_setc(vm,"t",tfun); vmh_seti(vm,"a",a); vmh_seti(vm,"b",b); vmh_seti(vm,"c",c); buzzvm_execute_script(vm);
  VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"the script runs to its end"); VF_ASSERTM(buzzvm_stack_top(vm)==0&&vm->lsyms==NULL,"nothing is left behind");
  m(1); if (a<b) { m(a); if (c) m(b); } else m(2); for (int i=0;i<c;i++) m(i*2); if (!c) m(5); if (c>1) m(A(a,c)); if (a) m(c?b:b); m(A(b,c)); m(3); m(S(a,b)); same(); }
#else
void vf_main(void) {
  buzzvm_t vm=vmh_load(1,SRC); vmh_setc(vm,"t",tfun); buzzvm_execute_script(vm); VF_ASSERTM(vm->state==BUZZVM_STATE_DONE,"the definitions run");
  int k=vf_choose(0,(int)(sizeof MD/sizeof *MD)-1,"program");
#ifdef WIDE
  int32_t a=vf_i32("a"), b=vf_i32("b"), c=vf_i32("c");
#elif G==3
  int32_t a=(k==3||k==9)?vf_range(-1,k==9?0:M,"a"):vf_i32("a"), b=vf_i32("b"), c=k==7?vf_range(0,M,"c"):vf_i32("c");
#else
  int32_t a=vf_range(k==1?0:-1,M,"a"), b=(k==3||k==4||k==9)?vf_range(-1,M,"b"):vf_i32("b"), c=k==9?vf_range(0,M,"c"):vf_i32("c");
#endif
  char name[4]="f"; if (k>9) { name[1]='1'; name[2]=(char)('0'+k-10); name[3]=0; } else { name[1]=(char)('0'+k); name[2]=0; }
  vm->state=BUZZVM_STATE_READY; buzzvm_pushi(vm,1234); buzzvm_push(vm,vmh_get(vm,name)); buzzvm_pushi(vm,a); buzzvm_pushi(vm,b); buzzvm_pushi(vm,c); buzzvm_closure_call(vm,3);
  VF_ASSERTM(vm->state==BUZZVM_STATE_READY,"the function runs to its end"); if (vm->state!=BUZZVM_STATE_READY) return; VF_ASSERTM(buzzvm_stack_top(vm)==2&&vmh_isi(buzzvm_stack_at(vm,2),1234)&&vm->lsyms==NULL,"exactly one result, nothing else is left behind");
  int32_t x=MD[k](a,b,c); buzzobj_t r=buzzvm_stack_at(vm,1);
  if (mnil) { VF_ASSERTM(r->o.type==BUZZTYPE_NIL,"no value is returned"); } else VF_ASSERTM(vmh_isi(r,x),"the returned value");
  same(); }
#endif
