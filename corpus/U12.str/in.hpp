#pragma once
#include <ostream>
namespace n { struct A { int a; }; std::ostream &operator<<(std::ostream &, A const &); struct B { int b; }; std::ostream &operator<<(std::ostream &, B &); class C { int c; }; } std::ostream &operator<<(std::ostream &, n::C const &); template<class T> struct D { T d; }; template<class T> std::ostream &operator<<(std::ostream &o, D<T> const &); template<class T, class U> struct E { T d; }; template<class T, class U> std::ostream &operator<<(std::ostream &o, E<T, U> const &); struct F { D<int> d; E<int, bool> e; }; std::ostream &operator<<(std::ostream &, F const &); struct G : public F {};
