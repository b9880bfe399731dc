#pragma once
namespace n { template<class T, class U = int> struct X { T t; struct In { int i; }; }; template<int N> struct Y { int y; }; struct Z { X<int> a; X<X<long>, double> b; Y<3> c; void g(X<Z> &); }; struct W { W(); void m(); virtual void v(); }; struct Q : public W { }; template<class... T> struct Pk { int p; }; inline void uu(Pk<>, Pk<int>, Pk<int, Z>); }
