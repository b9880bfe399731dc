#pragma once
namespace n {
struct A { int x; int y; enum E { e0, e1 }; enum F { f0 }; struct In { int q; }; void m(); void m(int); void k() const; static void s(); A(); A(int); };
struct B { int x; A a; };
struct C : public B { int z; };
template<class T, class U> struct P { T t; U u; void pm(T); enum PE { p0 }; };
template<class T> struct Q { T q; };
void f(); void f(int); void f(int, double); void g(P<int, long>, Q< Q<int> >); void h(B const &);
template<class T> T tf(T t) { return t; }
inline void use() { tf<int>(1); tf<double>(1.0); P<long, int> p; p.u = 1; }
enum E1 { a1 }; enum class E2 { a2 }; enum E3 { a3 };
}
namespace sk { struct S { int i; }; struct S2 { void m(); }; void sf(); void sg(S); enum SE { s0 }; }
