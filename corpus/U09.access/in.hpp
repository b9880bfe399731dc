#pragma once
struct Fwd; struct Inc; struct NoCopy { NoCopy(NoCopy const &) = delete; NoCopy &operator=(NoCopy const &) = delete; NoCopy(); };
class P { int pi; void pf(); public: int a; void b(); protected: int pr; void prf(); P(int); public: P(); ~P(); void del() = delete; template<class T> void tm(T t); operator int(); Fwd *fw(); Fwd fv(); void tk(Fwd); void tk2(Fwd *); void tr(int &&); void ar(int (&x)[3]); void cst() const; void cst(); int ov(int) const; int ov(int); int onlyc() const; private: struct Hid { int h; }; public: Hid hid(); void th(Hid); Hid *hp(); union { int ua; float ub; }; struct { int an; } anon; static int stat; int bits : 3; mutable int mu; const int ci = 1; enum { anonenum }; friend void fr(P &); using Ty = int; Ty ty(); void inc(int T1, ...); void pf2(void (*)(int)); void mp(int P::*); void va(__builtin_va_list); };
template<> void P::tm<int>(int); inline void u(P &p) { p.tm(1.0); }
struct Base { void ub(); int ui; void ov(int); void ov(double); protected: void pb(); int pi; void pc(int); };
struct D : private Base { using Base::ub; using Base::ui; using Base::ov; using Base::pb; using Base::pi; protected: using Base::pc; };
template<class T> struct TB { T tv; void tbm(); protected: void tbp(); }; struct DT : public TB<int> { int d; }; struct DP : private TB<long> { int dp; }; struct DD : public DT { }; template<class T> struct TD : public TB<T> { void tdm(); }; struct DDD : public TD<double> {};
struct Fin final { virtual void f(); }; struct Dd { Dd() = delete; int x; }; struct Pd { int x; private: ~Pd(); }; struct Pc { int x; private: Pc(); }; struct Mo { Mo(); Mo(Mo &&); };
union Un { int i; float f; }; struct Rv { int &&rv(); void trv(NoCopy &&); NoCopy nc(); NoCopy &ncr(); void tnc(NoCopy); }; namespace { struct Hidden {}; void hfn(); } void takehid(Hidden); static void sfn(); inline void ifn(); extern "C" void cfn();
class K { struct PrivN { int a; }; protected: struct ProtN { int b; }; public: struct PubN { int c; struct Deep { int d; }; }; class E1; class E1 { public: int e; }; PrivN pn(); ProtN ptn(); PubN pbn(); template<class T> struct TN { T t; }; TN<int> tn(); };
