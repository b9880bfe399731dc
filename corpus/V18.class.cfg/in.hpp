#pragma once
#include <memory>
namespace n { struct A { int a; }; struct B : public A { B(); B(int); explicit B(B const &); }; struct C : public A { }; }
namespace m { class B2 { public: int b2; protected: ~B2(); }; struct B3 { int b3; private: ~B3(); }; struct C : public n::A, private n::B { int c; using n::B::B; }; struct E : public std::enable_shared_from_this<E> { int e; protected: ~E(); }; struct F : public E { F(int); }; }
namespace k { struct Imp { int i; }; struct NoDef { NoDef(int); }; struct ImpD : public NoDef { }; struct Mem { NoDef nd; }; struct PrivD { private: PrivD(); }; struct DefArg { DefArg(int a = 1); }; struct UseC : public n::B { using n::B::B; int z; }; struct Ab { virtual void p() = 0; Ab(int); }; struct AbD { virtual void p() = 0; AbD(); AbD(AbD const &); }; struct CpC { CpC(CpC &); CpC(); }; struct CpP { CpP(); private: CpP(CpP const &); }; struct CpD { CpD(); CpD(CpD const &) = delete; }; struct VCp { VCp(); VCp(VCp const &); virtual void v(); }; struct VPr { VPr(); virtual void v(); protected: VPr(VPr const &); VPr(int); }; struct Buf { int b; }; struct Smart { int s; struct In { int i; }; }; template<class T> struct Tm { T t; Tm(T); }; inline void u() { Tm<int> t(1); } struct Ini { Ini(int, int); int a = 1; }; struct Agg { int a; int b; }; struct Vv : virtual public n::A { Vv(); }; struct DtD { ~DtD() = delete; int d; }; }
