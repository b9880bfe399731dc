#pragma once
#include <a.hpp>
#include <e.hpp>
#include <vector>
#include <map>
namespace root { struct A { void first(B &); void second(C &); std::vector<E> ve(); void fn(std::map<int, E *> const &); enum En { q }; En en(); }; template <class T> struct W { T t; template <class U> void tm(U); }; void useW(W<E> &); inline void u() { W<int> w; w.tm(1); } }
