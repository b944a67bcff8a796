// Program alphabet. A program is a sequence of Ops over 3 registers; exec<T>
// runs it on any number-like type: double, adouble, the reference types, the
// traceless types. r[0], r[1] start as the independents, r[2] as a constant.
#pragma once
#include <adolc/adolc.h>
#include <algorithm>
#include <string>
#include <type_traits>
#include <vector>
#include "mc.h"
#include "ref.h"

adouble adolc_vec_dot(const adouble *const, const adouble *const, size_t);
namespace dsl {
constexpr int NR = 3;

enum Kind {
  UN,   // r[d] = f(r[s])            form: 0 lvalue, 1 rvalue, 2 via named copy
  BIN,  // r[d] = r[s] f r[t]        form: bit0 lhs rvalue, bit1 rhs rvalue, 4 via named copy
  CB,   // r[d] = f_c(r[s])  constants on one side; form as UN
  CPD,  // r[d] op= r[s]
  CPC,  // r[d] op= c
  CPR,  // r[d] op= (rvalue expression of r[s], r[t])
  INC,
  ASG,  // assignments
  CND,  // conditional assignments
  VEC,  // contiguous-array operations and active subscripts
  CMPR, // branching on a comparison
  MISC
};
enum UnF { NEG, POS, EXP, LOG, LOG10, SQRT, CBRT, SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH,
           ASINH, ACOSH, ATANH, ERF, ERFC, CEIL, FLOOR, FABS, NUN };
inline const char *unName[] = {"neg","pos","exp","log","log10","sqrt","cbrt","sin","cos","tan","asin","acos","atan",
  "sinh","cosh","tanh","asinh","acosh","atanh","erf","erfc","ceil","floor","fabs"};
enum BinF { ADD, SUB, MUL, DIV, POW, ATAN2, FMIN, FMAX, NBIN };
inline const char *binName[] = {"+","-","*","/","pow","atan2","fmin","fmax"};
enum CbF { ADDC, CADD, SUBC, CSUB, MULC, CMUL, DIVC, CDIV, POW2, POW3, POWH, POWM1, POW0, POW1, CPOW, MINC, MAXC, CMIN, CMAX, LDEXP, NCB };
inline const char *cbName[] = {"x+c","c+x","x-c","c-x","x*c","c*x","x/c","c/x","x^2","x^3","x^2.5","x^-1","x^0","x^1","c^x","fmin(x,c)","fmax(x,c)","fmin(c,x)","fmax(c,x)","ldexp(x,3)"};
constexpr double CC = 1.625; // constant used on the double side

struct Op {
  Kind k;
  int f, d, s, t, form;
};

template <class T> constexpr bool isA = std::is_same_v<T, adouble>;

template <class T> T un(int f, T &x, int form) {
  using namespace std;
#define U(F)                                                                                                  \
  if (form == 1) return F(T(x));                                                                              \
  return F((const T &)x);
  switch (f) {
  case NEG: if (form == 1) return -T(x); return -(const T &)x;
  case POS: if (form == 1) return +T(x); return +(const T &)x;
  case EXP: U(exp) case LOG: U(log) case LOG10: U(log10) case SQRT: U(sqrt) case CBRT: U(cbrt)
  case SIN: U(sin) case COS: U(cos) case TAN: U(tan) case ASIN: U(asin) case ACOS: U(acos) case ATAN: U(atan)
  case SINH: U(sinh) case COSH: U(cosh) case TANH: U(tanh) case ASINH: U(asinh) case ACOSH: U(acosh)
  case ATANH: U(atanh) case ERF: U(erf) case ERFC: U(erfc) case CEIL: U(ceil) case FLOOR: U(floor) case FABS: U(fabs)
  }
#undef U
  abort();
}
template <class T> T bin(int f, T &a, T &b, int form) {
  using namespace std;
  const T &x = a, &y = b;
#define OPR(op)                                                                                               \
  switch (form & 3) {                                                                                         \
  case 0: return x op y;                                                                                      \
  case 1: return T(x) op y;                                                                                   \
  case 2: return x op T(y);                                                                                   \
  default: return T(x) op T(y);                                                                               \
  }
#define FUN(F)                                                                                                \
  switch (form & 3) {                                                                                         \
  case 0: return F(x, y);                                                                                     \
  case 1: return F(T(x), y);                                                                                  \
  case 2: return F(x, T(y));                                                                                  \
  default: return F(T(x), T(y));                                                                              \
  }
  switch (f) {
  case ADD: OPR(+) case SUB: OPR(-) case MUL: OPR(*) case DIV: OPR(/)
  case POW: FUN(pow) case ATAN2: FUN(atan2) case FMIN: FUN(fmin) case FMAX: FUN(fmax)
  }
#undef FUN
#undef OPR
  abort();
}
template <class T> T cb(int f, T &x, int form) {
  using namespace std;
  const double c = CC;
#define V(E1, E2) if (form == 1) return E1; return E2;
  switch (f) {
  case ADDC: V(T(x) + c, (const T &)x + c)
  case CADD: V(c + T(x), c + (const T &)x)
  case SUBC: V(T(x) - c, (const T &)x - c)
  case CSUB: V(c - T(x), c - (const T &)x)
  case MULC: V(T(x) * c, (const T &)x * c)
  case CMUL: V(c * T(x), c * (const T &)x)
  case DIVC: V(T(x) / c, (const T &)x / c)
  case CDIV: V(c / T(x), c / (const T &)x)
  case POW2: V(pow(T(x), 2.0), pow((const T &)x, 2.0))
  case POW3: V(pow(T(x), 3.0), pow((const T &)x, 3.0))
  case POWH: V(pow(T(x), 2.5), pow((const T &)x, 2.5))
  case POWM1: V(pow(T(x), -1.0), pow((const T &)x, -1.0))
  case POW0: V(pow(T(x), 0.0), pow((const T &)x, 0.0))
  case POW1: V(pow(T(x), 1.0), pow((const T &)x, 1.0))
  case CPOW: return pow(c, (const T &)x);
  case MINC: V(fmin(T(x), c), fmin((const T &)x, c))
  case MAXC: V(fmax(T(x), c), fmax((const T &)x, c))
  case CMIN: V(fmin(c, T(x)), fmin(c, (const T &)x))
  case CMAX: V(fmax(c, T(x)), fmax(c, (const T &)x))
  case LDEXP: V(ldexp(T(x), 3), ldexp((const T &)x, 3))
  }
#undef V
  abort();
}
template <class T> void store(T &dst, T &&v, int named) {
  if (named) {
    T t = std::move(v);
    dst = (const T &)t;
  } else
    dst = std::move(v);
}

// arrays with contiguous locations and active subscripts
template <class T> struct Arr {
  std::vector<T> v;
  explicit Arr(int n) : v(n) {}
  T &at(int i) { return v[i]; }
  size_t at_(const T &i) const { size_t k = size_t(::ref::val(i)); ::ref::ev(::ref::EV_IDX, double(k), false); return k; }
  T get(const T &i) const { return v[at_(i)]; }
  T &ref(const T &i) { return v[at_(i)]; }
};
template <> struct Arr<adouble> {
  advector v;
  explicit Arr(int n) : v(n) {}
  adouble &at(int i) { return v[size_t(i)]; }
  adouble get(const adouble &i) const { const advector &c = v; return c[i]; }
  adubref ref(const adouble &i) { return v[i]; }
};
inline double dval(double x) { return x; }
inline double dval(const adouble &x) { return x.value(); }
template <class X> double dval(const X &x) { return ref::val(x); }

template <class T> T clampIndex(T &x) { // an active index in {0,1,2}
  using namespace std;
  return floor(fmin(fabs((const T &)x), 2.5));
}
enum VecF { VCOPY, VDOT, VAXPY, VGET, VSET, VSETC, VADD, VADDC, VSUB, VSUBC, VMUL, VMULC, VINC, VDEC, VCOND, VCOND2, VCONDEQ, VCONDEQ2, VPINC, VPDEC, VDIV, VDOTALIAS, VAXPYALIAS, VGETX, VSETX, VCOPYX, NVEC };
inline const char *vecName[] = {"vcopy","vdot","vaxpy","a[i]","a[i]=x","a[i]=c","a[i]+=x","a[i]+=c","a[i]-=x","a[i]-=c","a[i]*=x","a[i]*=c","++a[i]","--a[i]",
  "condassign(a[i],c,x,y)","condassign(a[i],c,x)","condeqassign(a[i],c,x,y)","condeqassign(a[i],c,x)","a[i]++","a[i]--","a[i]/=x","vdot(dst in v)","vaxpy(res=v)","a[0..2]=expr; a[i]","a[0..2]=expr; a[i]=x","a[1]=expr; copy of a"};

template <class T> void vecop(int f, T *r, int d, int s, int t) {
  if (f == VCOPY || f == VDOT || f == VAXPY || f == VDOTALIAS || f == VAXPYALIAS) {
    Arr<T> a(3), b(3);
    for (int i = 0; i < 3; i++) { a.at(i) = r[i]; b.at(i) = r[(i + s) % 3]; }
    T q = a.at(0) * a.at(1) * a.at(2) + b.at(0) / (b.at(1) * b.at(1) + 1.0) * b.at(2); // uses what is overwritten below
    if (f == VCOPY) {
      if constexpr (isA<T>) adolc_vec_copy(b.v, a.v, 3);
      else for (int i = 0; i < 3; i++) b.at(i) = a.at(i);
      r[d] = b.at(t) + q;
    } else if (f == VDOT) {
      T x = 0.0;
      if constexpr (isA<T>) { adouble *pa = a.v, *pb = b.v; x = adolc_vec_dot((const adouble *)pa, (const adouble *)pb, 3); }
      else { for (int i = 0; i < 3; i++) x = x + a.at(i) * b.at(i); }
      r[d] = x + q;
    } else {
      Arr<T> c(3);
      for (int i = 0; i < 3; i++) c.at(i) = r[(i + 1) % 3];
      q = q + c.at(0) * c.at(1) * c.at(2);
      if constexpr (isA<T>) { adouble *pa = a.v, *pb = b.v, *pc = c.v; adolc_vec_axpy(f == VAXPY ? pc : pa, r[t], pa, pb, 3); if (f != VAXPY) r[d] = a.at(s) + q; else r[d] = c.at(s) + q; }
      else { for (int i = 0; i < 3; i++) { c.at(i) = r[t] * a.at(i) + b.at(i); } r[d] = c.at(s) + q; }
    }
    return;
  }
  Arr<T> a(3);
  for (int i = 0; i < 3; i++) a.at(i) = r[(i + 1) % 3];
  if (f == VGETX || f == VSETX) for (int i = 0; i < 3; i++) a.at(i) = r[i] * 1.0;
  if (f == VCOPYX) { a.at(1) = r[0] * r[1]; Arr<T> b(a); r[d] = a.at(0) * 2.0 + b.at(0) * 7.0 + a.at(1) * 3.0 + b.at(1) * 11.0 + b.at(2); return; }
  T idx = clampIndex(r[s]);
  T &x = r[t];
  switch (f) {
  case VGET: case VGETX: r[d] = a.get(idx); return;
  case VSET: case VSETX: a.ref(idx) = x; break;
  case VSETC: a.ref(idx) = CC; break;
  case VADD: a.ref(idx) += x; break;
  case VADDC: a.ref(idx) += CC; break;
  case VSUB: a.ref(idx) -= x; break;
  case VSUBC: a.ref(idx) -= CC; break;
  case VMUL: a.ref(idx) *= x; break;
  case VMULC: a.ref(idx) *= CC; break;
  case VDIV: a.ref(idx) /= x; break;
  case VINC: ++a.ref(idx); break;
  case VDEC: --a.ref(idx); break;
  case VPINC: { T q = a.ref(idx)++; r[d] = q * 2.0 + a.at(1); return; }
  case VPDEC: { T q = a.ref(idx)--; r[d] = q * 2.0 + a.at(1); return; }
  case VCOND: { auto &&q = a.ref(idx); condassign(q, r[0], x, r[d]); break; }
  case VCOND2: { auto &&q = a.ref(idx); condassign(q, r[0], x); break; }
  case VCONDEQ: { auto &&q = a.ref(idx); condeqassign(q, r[1], x, r[d]); break; }
  case VCONDEQ2: { auto &&q = a.ref(idx); condeqassign(q, r[1], x); break; }
  }
  r[d] = a.at(0) * 2.0 + a.at(1) * 3.0 + a.at(2) * 5.0;
}

// the value domain guard: adouble pow(a,b) asserts a>0; the reference decides
inline bool domOk(const Op &o, const double *v) {
  if (o.k == BIN && o.f == POW) return v[o.s] > 1e-9;
  if (o.k == CB && o.f == POW0 ) return v[o.s] != 0;
  if (o.k == BIN && o.f == ATAN2) return std::fabs(v[o.s]) > 1e-9 && std::fabs(v[o.t]) > 1e-9 && std::fabs(std::fabs(v[o.s]) - std::fabs(v[o.t])) > 1e-9;
  return true;
}

template <class T> void exec(const Op &o, T *r) {
  T *d = &r[o.d];
  const int F = o.form;
  switch (o.k) {
  case UN: store(*d, un(o.f, r[o.s], F), F == 2); break;
  case BIN: store(*d, bin(o.f, r[o.s], r[o.t], F), F & 4); break;
  case CB: store(*d, cb(o.f, r[o.s], F), F == 2); break;
  case CPD:
    switch (o.f) {
    case 0: *d += (const T &)r[o.s]; break;
    case 1: *d -= (const T &)r[o.s]; break;
    case 2: *d *= (const T &)r[o.s]; break;
    case 3: *d /= (const T &)r[o.s]; break;
    }
    break;
  case CPC:
    switch (o.f) {
    case 0: *d += CC; break;
    case 1: *d -= CC; break;
    case 2: *d *= CC; break;
    case 3: *d /= CC; break;
    }
    break;
  case CPR: {
    T &x = r[o.s], &y = r[o.t];
    switch (o.f) {
    case 0: *d += x * y; break;      // fused multiply-accumulate record
    case 1: *d -= x * y; break;
    case 2: *d += x + y; break;
    case 3: *d -= x - y; break;
    case 4: *d *= x * y; break;
    case 5: *d /= x + y; break;
    case 6: *d += T(x); break;
    case 7: *d -= T(x); break;
    case 8: { using namespace std; *d += sin(x) * y; break; }
    case 9: { T p = x * y; *d += p; *d -= std::move(p); break; }
    case 10: *d += x * CC; break;
    case 11: *d -= x / y; break;
    }
    break;
  }
  case INC:
    switch (o.f) {
    case 0: ++*d; break;
    case 1: --*d; break;
    case 2: { T q = (*d)++; store(r[o.s], std::move(q), 0); break; }
    case 3: { T q = (*d)--; store(r[o.s], std::move(q), 0); break; }
    case 4: (*d)++; break;
    case 5: (*d)--; break;
    }
    break;
  case ASG:
    switch (o.f) {
    case 0: *d = (const T &)r[o.s]; break;
    case 1: *d = 0.0; break;
    case 2: *d = 1.0; break;
    case 3: *d = CC; break;
    case 4: { T q = (const T &)r[o.s]; *d = std::move(q); break; }
    case 5: { T q = std::move(*d); *d = std::move(r[o.s]); r[o.s] = std::move(q); break; } // swap
    case 6: { T a = (const T &)r[o.s], b = a; a = r[o.t]; { T c = b * a; b = c; } *d = b + a; break; }
    case 7: { std::vector<T> w; for (int i = 0; i < 3; i++) w.push_back(r[(i + o.s) % 3]); w.erase(w.begin()); w.push_back(w[0] * w[1]); *d = w[0] + w[2]; break; }
    }
    break;
  case CND:
    switch (o.f) {
    case 0: condassign(*d, (const T &)r[o.s], (const T &)r[o.t], (const T &)r[(o.t + 1) % NR]); break;
    case 1: condassign(*d, (const T &)r[o.s], (const T &)r[o.t]); break;
    case 2: condeqassign(*d, (const T &)r[o.s], (const T &)r[o.t], (const T &)r[(o.t + 1) % NR]); break;
    case 3: condeqassign(*d, (const T &)r[o.s], (const T &)r[o.t]); break;
    case 4: { T c = r[o.s] - r[o.t]; condassign(*d, c, (const T &)r[o.s], (const T &)r[o.t]); break; }
    case 5: { T c = r[o.s] - r[o.t]; condeqassign(*d, c, (const T &)r[o.t], (const T &)r[o.s]); break; }
    }
    break;
  case VEC: vecop(o.f, r, o.d, o.s, o.t); break;
  case CMPR: {
    bool b = false;
    const T &x = r[o.s], &y = r[o.t];
    switch (o.f) {
    case 0: b = x < 0.25; break;
    case 1: b = x > 0.25; break;
    case 2: b = x <= 0.25; break;
    case 3: b = x >= 0.25; break;
    case 4: b = x == 0.25; break;
    case 5: b = x != 0.25; break;
    case 6: b = x < y; break;
    case 7: b = x > y; break;
    case 8: b = x <= y; break;
    case 9: b = x >= y; break;
    case 10: b = 0.25 < x; break;
    case 11: b = 0.25 > x; break;
    case 12: b = 0.25 <= x; break;
    case 13: b = 0.25 >= x; break;
    case 14: b = x == y; break;
    case 15: b = x != y; break;
    case 16: b = 0.25 == x; break;
    case 17: b = 0.25 != x; break;
    }
    if (b) *d = r[o.s] * 2.0;
    else *d = r[o.s] * r[o.s] + 3.0;
    break;
  }
  case MISC: {
    using namespace std;
    switch (o.f) {
    case 0: { // polynomial by Horner with reused temporary
      T p = 1.0; for (int i = 0; i < 3; i++) p = p * r[o.s] + double(i); *d = p; break; }
    case 1: { T p = r[o.s]; for (int i = 0; i < 3; i++) { T q = p * r[o.t]; p = q; } *d = p; break; }
    case 2: { T p[2] = {r[o.s], r[o.t]}; p[0] *= p[1]; p[1] += p[0]; *d = p[0] - p[1] * p[1]; break; }
    case 3: { *d = (r[o.s] + r[o.t]) * (r[o.s] - r[o.t]) / (r[o.s] * r[o.s] + 1.0); break; }
    case 4: { *d = exp(sin(r[o.s]) * r[o.t] - r[o.s]); break; }
    case 5: { *d = max(r[o.s], (const T &)r[o.t]) + min(r[o.s], (const T &)r[o.t]) * 2.0; break; }
    case 6: { // not every type brings its own abs
      if constexpr (requires { abs(r[0]); }) *d = abs(r[o.s]) * r[o.t];
      else *d = fabs(r[o.s]) * r[o.t];
      break; }
    }
    break;
  }
  }
}

inline std::string str(const Op &o) {
  using mc::fmt;
  switch (o.k) {
  case UN: return fmt("r%d=%s(r%d)%s", o.d, unName[o.f], o.s, o.form == 1 ? "'rv" : o.form == 2 ? "'cp" : "");
  case BIN: return fmt("r%d=r%d %s r%d'%d", o.d, o.s, binName[o.f], o.t, o.form);
  case CB: return fmt("r%d=[%s](r%d)%s", o.d, cbName[o.f], o.s, o.form == 1 ? "'rv" : o.form == 2 ? "'cp" : "");
  case CPD: return fmt("r%d%c=r%d", o.d, "+-*/"[o.f], o.s);
  case CPC: return fmt("r%d%c=c", o.d, "+-*/"[o.f]);
  case CPR: { const char *n[] = {"+=x*y","-=x*y","+=x+y","-=x-y","*=x*y","/=x+y","+=T(x)","-=T(x)","+=sin(x)*y","+=p,-=p","+=x*c","-=x/y"};
    return fmt("r%d%s(x=r%d,y=r%d)", o.d, n[o.f], o.s, o.t); }
  case INC: { const char *n[] = {"++r","--r","s=r++","s=r--","r++","r--"}; return fmt("%s(r=r%d,s=r%d)", n[o.f], o.d, o.s); }
  case ASG: { const char *n[] = {"=r","=0","=1","=c","=T(r)","<swap>r","=scoped","=vec"}; return fmt("r%d%s%d,%d", o.d, n[o.f], o.s, o.t); }
  case CND: { const char *n[] = {"condassign","condassign3","condeqassign","condeqassign3","condassign(x-y)","condeqassign(x-y)"}; return fmt("%s(r%d,r%d,r%d)", n[o.f], o.d, o.s, o.t); }
  case VEC: return fmt("%s[d=r%d,s=r%d,t=r%d]", vecName[o.f], o.d, o.s, o.t);
  case CMPR: { const char *n[] = {"x<c","x>c","x<=c","x>=c","x==c","x!=c","x<y","x>y","x<=y","x>=y","c<x","c>x","c<=x","c>=x","x==y","x!=y","c==x","c!=x"}; return fmt("if(%s)[d=r%d,x=r%d,y=r%d]", n[o.f], o.d, o.s, o.t); }
  case MISC: return fmt("misc%d[d=r%d,s=r%d,t=r%d]", o.f, o.d, o.s, o.t);
  }
  return "?";
}

// ---------------------------------------------------------------- alphabets
struct AlphaCfg {
  std::vector<std::pair<int,int>> un;               // (d,s)
  std::vector<std::array<int,3>> bin;               // (d,s,t)
  std::vector<int> unForms, binForms;
  bool all = true;       // all functions, else representatives
  bool vec = true, cmp = false, misc = true, branchy = true; // branchy: fabs/min/max/ceil/floor/cond
  bool smoothOnly = false;
};
inline std::vector<Op> alphabet(const AlphaCfg &c) {
  std::vector<Op> A;
  auto isBranchyUn = [](int f) { return f == CEIL || f == FLOOR || f == FABS; };
  std::vector<int> repUn = {NEG, EXP, SQRT, SIN, ATAN, FABS, TANH}, repBin = {ADD, SUB, MUL, DIV, FMIN}, repCb = {ADDC, CSUB, CMUL, CDIV, POW2, POWH, CPOW};
  auto in = [](const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  for (int f = 0; f < NUN; f++) {
    if (!c.all && !in(repUn, f)) continue;
    if (!c.branchy && isBranchyUn(f)) continue;
    for (auto [d, s] : c.un) for (int fm : c.unForms) A.push_back({UN, f, d, s, 0, fm});
  }
  for (int f = 0; f < NCB; f++) {
    if (!c.all && !in(repCb, f)) continue;
    if (!c.branchy && (f == MINC || f == MAXC || f == CMIN || f == CMAX)) continue;
    for (auto [d, s] : c.un) for (int fm : c.unForms) {
      if (f == CPOW && fm == 1) continue;
      A.push_back({CB, f, d, s, 0, fm});
    }
  }
  for (int f = 0; f < NBIN; f++) {
    if (!c.all && !in(repBin, f)) continue;
    if (!c.branchy && (f == FMIN || f == FMAX)) continue;
    for (auto [d, s, t] : c.bin) for (int fm : c.binForms) A.push_back({BIN, f, d, s, t, fm});
  }
  for (int f = 0; f < 4; f++) {
    for (auto [d, s] : c.un) A.push_back({CPD, f, d, s, 0, 0});
    for (int d = 0; d < NR; d += 2) A.push_back({CPC, f, d, 0, 0, 0});
  }
  for (int f = 0; f < 12; f++) {
    if (!c.all && f > 3) continue;
    for (auto [d, s, t] : c.bin) A.push_back({CPR, f, d, s, t, 0});
  }
  for (int f = 0; f < 6; f++) for (int d = 0; d < NR; d += 2) A.push_back({INC, f, d, (d + 1) % NR, 0, 0});
  for (auto [d, s] : c.un) {
    A.push_back({ASG, 0, d, s, 0, 0});
    if (c.all) A.push_back({ASG, 4, d, s, 0, 0});
    if (d != s) A.push_back({ASG, 5, d, s, 0, 0});
    if (c.all) { A.push_back({ASG, 6, d, s, (s + 1) % NR, 0}); A.push_back({ASG, 7, d, s, 0, 0}); }
  }
  for (int d = 0; d < NR; d += 2) for (int f = 1; f <= 3; f++) A.push_back({ASG, f, d, 0, 0, 0});
  if (c.branchy)
    for (int f = 0; f < 6; f++) for (auto [d, s, t] : c.bin) A.push_back({CND, f, d, s, t, 0});
  if (c.vec) {
    for (int f = 0; f < NVEC; f++) {
      if (!c.branchy && !(f <= VAXPY || f == VDOTALIAS || f == VAXPYALIAS)) continue;
      if (f == VDOTALIAS) continue;
      for (auto [d, s, t] : c.bin) if (c.all || (d + s + t) % 3 == 1) A.push_back({VEC, f, d, s, t, 0});
    }
  }
  if (c.cmp)
    for (int f = 0; f < 18; f++) for (auto [d, s, t] : c.bin) if (c.all || (d + s + t) % 3 == 1) A.push_back({CMPR, f, d, s, t, 0});
  if (c.misc)
    for (int f = 0; f < 7; f++) {
      if (!c.branchy && f >= 5) continue;
      for (auto [d, s, t] : c.bin) if (c.all || (d + s + t) % 3 == 1) A.push_back({MISC, f, d, s, t, 0});
    }
  return A;
}
inline std::vector<std::pair<int,int>> unAll() { std::vector<std::pair<int,int>> v; for (int d = 0; d < 3; d++) for (int s = 0; s < 3; s++) v.push_back({d, s}); return v; }
inline std::vector<std::array<int,3>> binAll() { std::vector<std::array<int,3>> v; for (int d = 0; d < 3; d++) for (int s = 0; s < 3; s++) for (int t = 0; t < 3; t++) v.push_back({d, s, t}); return v; }
inline AlphaCfg cfgFull() { AlphaCfg c; c.un = unAll(); c.bin = binAll(); c.unForms = {0, 1, 2}; c.binForms = {0, 1, 2, 3, 4}; return c; }
inline AlphaCfg cfgMid() {
  AlphaCfg c;
  c.un = {{0, 0}, {2, 0}, {0, 1}, {0, 2}};
  c.bin = {{0, 0, 1}, {0, 1, 0}, {2, 0, 1}, {0, 0, 0}, {1, 0, 2}};
  c.unForms = {0, 1};
  c.binForms = {0, 3};
  return c;
}
inline AlphaCfg cfgSmall() {
  AlphaCfg c;
  c.un = {{0, 0}, {2, 0}, {0, 2}};
  c.bin = {{0, 0, 1}, {2, 0, 1}, {0, 2, 0}};
  c.unForms = {0};
  c.binForms = {0};
  c.all = false;
  return c;
}
inline AlphaCfg cfgTiny() {
  AlphaCfg c = cfgSmall();
  c.un = {{0, 0}, {2, 0}};
  c.bin = {{0, 0, 1}, {2, 0, 2}};
  c.vec = false;
  c.misc = false;
  return c;
}

typedef std::vector<Op> Prog;
inline std::string str(const Prog &p) {
  std::string s;
  for (auto &o : p) s += (s.empty() ? "" : "; ") + str(o);
  return s;
}
// program #k of length L over alphabet A
inline Prog prog(const std::vector<Op> &A, int L, uint64_t k) {
  Prog p;
  for (int i = 0; i < L; i++) {
    p.push_back(A[k % A.size()]);
    k /= A.size();
  }
  return p;
}
constexpr double R2 = 0.5625; // initial value of r[2]

// Reference run on doubles. false: outside the functions' domains (NaN/Inf).
inline bool runDouble(const Prog &p, const double *x, double *y, uint64_t *hash = nullptr) {
  double r[NR] = {x[0], x[1], R2};
  uint64_t h = 77;
  for (auto &o : p) {
    if (!domOk(o, r)) return false;
    exec<double>(o, r);
    for (int i = 0; i < NR; i++) {
      if (!std::isfinite(r[i]) || std::fabs(r[i]) > 1e7) return false;
      h = mc::hdouble(h, r[i]);
    }
    mc::state(h);
    mc::transition();
  }
  for (int i = 0; i < NR; i++) y[i] = r[i];
  if (hash) *hash = h;
  return true;
}
// higher-order coefficients lose all digits where tanh saturates and where a
// divisor is small
inline bool illConditioned(const Prog &p, const double *x) {
  double r[NR] = {x[0], x[1], R2};
  for (auto &o : p) {
    if (o.k == UN && o.f == TANH && std::fabs(r[o.s]) > 5) return true;
    double q = 1;
    if (o.k == BIN && o.f == DIV) q = r[o.t];
    if ((o.k == CPD && o.f == 3) || (o.k == CB && (o.f == CDIV || o.f == POWM1 || o.f == POWH)) || (o.k == UN && (o.f == LOG || o.f == LOG10 || o.f == SQRT))) q = r[o.s];
    if (o.k == CPR && o.f == 5) q = r[o.s] + r[o.t];
    if (o.k == CPR && o.f == 11) q = r[o.t];
    if (q != 0 && std::fabs(q) < 0.1) return true;
    exec<double>(o, r);
  }
  return false;
}
template <class T> void runRef(const Prog &p, const T *x, T *y) {
  ref::flags.clear();
  T r[NR] = {x[0], x[1], T(R2)};
  for (auto &o : p) exec<T>(o, r);
  for (int i = 0; i < NR; i++) y[i] = r[i];
}
// records the program; returns the value shown by the active variables
inline void adolcrc(size_t ob, size_t lb, size_t vb, size_t tb, size_t live = 0) {
  FILE *f = fopen(".adolcrc", "w");
  fprintf(f, "\"OBUFSIZE\" \"%zu\"\n\"LBUFSIZE\" \"%zu\"\n\"VBUFSIZE\" \"%zu\"\n\"TBUFSIZE\" \"%zu\"\n", ob, lb, vb, tb);
  if (live) fprintf(f, "\"INITLIVE\" \"%zu\"\n", live);
  fclose(f);
}
// a fresh trace with buffers large enough to stay in memory
inline short freshTape(size_t b = 4096) {
  adolcrc(b, b, b, b);
  return createNewTape();
}
inline void record(short tag, const Prog &p, const double *x, double *y, int keep = 0) {
  trace_on(tag, keep);
  {
    adouble r[NR];
    r[0] <<= x[0];
    r[1] <<= x[1];
    r[2] = R2;
    for (auto &o : p) exec<adouble>(o, r);
    for (int i = 0; i < NR; i++) r[i] >>= y[i];
  }
  trace_off();
}
} // namespace dsl
