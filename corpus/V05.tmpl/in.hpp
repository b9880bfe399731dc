#pragma once
namespace r { template <typename T> struct Base { T v; void set(T const &); }; template <typename T> struct Wrap : public T { int extra; }; template <> struct Base<double> { double v; };
template <class T> struct Two : public T, public Base<T> { int t; }; struct Plain { int p; struct In; }; struct Other { int o; }; struct Plain::In : public Other { int i; };
struct Outer { struct N1 { int n; }; int z; }; struct M : public Outer::N1 { int m; }; struct N2x : public M { int y; };
inline void use() { Base<int> b; Wrap< Base<double> > w; Wrap< Wrap<Other> > ww; Two<Other> t; Wrap<Plain> wp; Wrap<N2x> wo; } }
namespace a { namespace b { namespace c { struct C1 { int c; }; } } namespace b2 { struct D1 : public b::c::C1 { int d; }; } } namespace ab { struct Q { int q; }; }
