#pragma once
struct SK {};

namespace n { struct K { int k; }; struct L { int l; }; struct PB { int p; };
struct M { int m; int *p(); int &l(); int &&r(); int const &cl() const; static int *sp(); static int &sl(); static int &&sr(); int v(); SK sk(); PB pb(); };
template<class T> struct X { T t; }; struct UX { X<int> x; void g(X<K>); };
int *fp(); int &fl(); int &&fr(); int fv(); K *kp(); K &kl();
struct V { virtual ~V(); virtual int vf(int) ; virtual void vg(); };
namespace deep { struct D { int d; }; void fd(); namespace er { struct E { int e; }; } }
namespace bfn { struct N1 {}; struct N2 {}; }
namespace skip { struct Z {}; } }
