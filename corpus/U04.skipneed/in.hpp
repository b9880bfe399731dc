#pragma once
namespace d { struct P { int x; }; struct R { int y; }; struct Bs { void m(); }; struct Q; struct T { int t; }; template<class X> struct Tm { X x; }; enum E { e }; }
namespace w { struct A : public d::Bs { d::R r(d::P); void q(d::Q *); d::T tt; d::Tm<d::P> tp(); void only(int); d::E en(); void pe(d::P *, int); }; void f(d::P &); void g(d::Tm<int>); struct B { B(d::P); B(int); d::P p; }; d::P *gp(); struct V { virtual void a(d::P); virtual void b(); }; }
