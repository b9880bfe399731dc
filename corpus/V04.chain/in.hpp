#pragma once
namespace dep { struct A5 { int v; }; struct A4 { A5 next(); }; struct A3 { A4 *next(); }; struct A2 { A3 &next(); }; struct A1 { A2 const &next(A5); }; struct A0 { A1 next(); }; struct Unused { int u; }; template <class T> struct Box { T v; A3 a; }; template <class T> struct Ptr; enum En { e }; struct ByField { int f; }; struct Holder { ByField b; }; }
namespace root { void f(dep::A0 &); void g(dep::Box<int> const *); void h(dep::Ptr<int> *); dep::Box<double> k(); struct S : public dep::Holder { dep::En e; void m(dep::Unused **); virtual dep::A2 *v(); }; void arr(dep::Unused x[3]); }
