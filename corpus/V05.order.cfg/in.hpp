#pragma once
template<class U> struct T : public U { int t; }; struct Base { int b; }; struct A { int a; }; struct Outer { struct In : public Base { int i; }; int o; }; struct X : public T<A> { int x; };
template<class U> struct T2 : public Base, public U { int t2; }; struct Y : public T2<X>, public Outer::In { int y; }; struct Mid : public X { int m; }; struct Z : virtual public A, public T2<Outer> { struct N : public T2<Mid> {}; }; template struct T2<A>;
namespace z { struct Q { int q; }; } namespace a { struct R : public z::Q { int r; }; template<class U> struct K : public U { int k; }; } namespace z { struct W { int w; struct WN : public a::R {}; }; struct W2 : public a::K<W> {}; } struct Last : public z::W2, public z::W::WN {};
