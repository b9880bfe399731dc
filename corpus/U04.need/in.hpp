#pragma once
namespace w { struct Direct { int d; }; }
namespace d { struct Param {}; struct Ret {}; struct Base { int b; }; struct Base2 : public Base {}; struct Field { int f; }; struct Ptr {}; struct Ref {}; struct Unused {}; struct Deep {}; struct HasDeep { Deep dp(); }; enum En { e0 }; enum UnusedEn { ue }; struct CtorP {}; struct StatP {}; struct PtrPtr {}; struct VarC {}; struct TmplArg {}; struct PrivP {}; struct Inh {}; struct BaseM { Inh inh(); }; struct NestP {}; struct NestB {}; struct UsingP {}; struct UB { UB(UsingP); }; struct ConstP {}; struct FnP {}; struct ArrP {}; struct TypedefP {}; typedef TypedefP TP; struct DefP {}; template<class T> struct Tm { T t; T *g(); }; struct OpP {}; struct ProtBase {}; struct VirtP {}; struct VirtRet {}; struct TB1 {}; template<class T> struct TBase { T tb(); }; void fn(Unused); }
namespace w { struct A : public d::Base2, protected d::ProtBase { d::Ret r(d::Param); d::Field f; void p(d::Ptr *, d::Ref const &, d::En); d::HasDeep *hd(); A(d::CtorP); A(d::VarC, ...); static void s(d::StatP **); d::Tm<d::TmplArg> tm(); struct N : public d::NestB { void np(d::NestP); }; void c(d::ConstP const * const); void fnp(void (*)(d::FnP)); void arr(d::ArrP a[2]); void td(d::TP); void dp(int, d::DefP * = nullptr); d::OpP operator+(d::OpP); virtual d::VirtRet v(d::VirtP); private: void priv(d::PrivP); }; struct B : public d::BaseM {}; struct C : public d::UB { using d::UB::UB; }; struct D : public d::TBase<d::TB1> {}; void free1(Direct, d::Tm<int> const &); }
