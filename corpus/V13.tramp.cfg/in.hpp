#pragma once
struct A0 { int i; }; struct Fwd; 
struct V1 { virtual ~V1(); virtual void a(); virtual int b(int, double) const; virtual A0 &c(A0 const &) noexcept; virtual void d() noexcept(true); virtual void e() noexcept(false); virtual void f() throw(); virtual void g() = 0; void nv(); static void st(); virtual void h() volatile; virtual void i() &; virtual A0 const *j(); virtual void k() final; protected: virtual void pr(); virtual int prp(int) = 0; private: virtual void pv(); };
struct V2 : public V1 { void a() override; virtual void z(); int b(int, double) const final; };
struct V3 : public V2 { void g() override; int prp(int) override; };
struct V4 : protected V1 { virtual void y(); }; struct V5 : private V1 { void g(); int prp(int); virtual void x(); };
struct Fi final : public V1 { void g(); int prp(int); }; struct FD : public V1 { ~FD() final; void g(); int prp(int); virtual void w(); };
struct PP { virtual void p() = 0; private: virtual void q() = 0; }; struct PC { virtual void p(); private: PC(); }; struct PC2 { virtual void p(); protected: PC2(int); };
struct NB { virtual void ok(); virtual Fwd bad(Fwd) = 0; }; struct NB2 { virtual void ok(); virtual void bad(Fwd); }; struct Vb { virtual int t(int = 1); virtual int t(double); virtual int t() const; };
template<class T> struct TV { virtual T g(T); virtual ~TV(); }; struct TVD : public TV<int> { int g(int) override; }; inline void u(TV<double> &); 
struct L1 { virtual void m(); }; struct R1 { virtual void m(); virtual void n(); }; struct LR : public L1, public R1 { void m() override; }; struct Dia1 : virtual public L1 {}; struct Dia2 : virtual public L1 {}; struct Dia : public Dia1, public Dia2 {};
namespace n { struct NV { virtual void m(NV &); virtual NV *c() const; struct In { virtual void im(); }; virtual void operator()(int); virtual bool operator==(NV const &) const; virtual operator int(); virtual void many(int, int, int, int, int, int, int, int, int, int, int); virtual void names(int a, double b = 2); }; }
struct Dtor { virtual ~Dtor(); }; struct NonV { void a(); }; struct Ret { virtual int &r(); virtual A0 v(); virtual A0 *p(); virtual A0 const &cr() const; virtual void fpp(void (*)(int)); };
