#pragma once
struct A { A(int a, double bb = 1); void m(int x, int y = 1) const; static void s(int, int q); void one(int only); };
void f(int x, int y = 2, int = 3); void g(); void h(int single); struct V { V(int z, int w = 1); virtual void v(int a); };
