#pragma once
struct my_Bool_t { int i; }; template<class... T> struct Pk { int p; }; template<class T, class U = T> struct Df { T t; U u; }; template<bool B> struct Bo { int b; }; template<int N, unsigned long L, char c> struct Ints { int i; }; template<class T> struct Tp { T t; struct In { int i; }; template<class U> struct In2 { U u; }; };
namespace n { struct A { int a; }; namespace m { template<class T> struct Q { T q; }; enum En { z }; struct Op { int x; }; } inline namespace v2 { struct IV { int iv; }; } typedef m::Q<A> QA; }
void f(Pk<>, Pk<int>, Pk<int, n::A, bool>, Df<int>, Df<int, long>, Bo<true>, Bo<false>, Ints<-1, 5ul, 'c'>, Tp<int *>, Tp<int const &>, Tp<n::A const *>, Tp<bool>, Tp<Tp<bool> >, Tp<void (*)(int)>, Tp<int>::In, Tp<int>::In2<long>, n::m::Q<n::A>, n::QA, n::m::Q<n::m::En>, n::IV, Tp<my_Bool_t>, Tp<unsigned char>, Tp<long long>, Tp<double[3]>);
void g(bool, bool &, bool *, bool const *, my_Bool_t); bool h(bool (*)(bool)); template<class T> T tf(T) { return T(); } template<int N> int ti() { return N; } inline void us() { tf<bool>(true); tf<n::A>(n::A()); tf<Tp<bool> >(Tp<bool>()); ti<3>(); ti<-3>(); }
struct Outer { struct Inner { struct Deep { int d; }; }; template<class T> struct TI { T t; }; Inner i(Inner::Deep); TI<bool> ti(); }; class Cls { public: int c; }; void k(struct Outer *, class Cls &, enum n::m::En); struct global { int g; }; namespace nonlocal { struct S { int s; }; }
