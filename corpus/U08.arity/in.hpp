#pragma once
struct A { int a; }; enum E { e0 };
void f0(); void f1(int a = 1); void f2(int, double b = 2.0); void f3(A const &x, A y = A(), int *p = nullptr, E e = e0);
void f11(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k = 3, int l = 4);
void f12(int = 1, int = 2, int = 3, int = 4, int = 5, int = 6, int = 7, int = 8, int = 9, int = 10, int = 11, int = 12);
void cb(int (*fn)(int), int x = 0); void cb2(int x, void (*fn)() = nullptr, int y = 1);
int const &cr(int const &a = 0); void arr(int a[3], char const *s = "x"); void rr(A &&x, A const *y); void vol(volatile int *p);
void un(int, double, A); void vari(int a, ...); void pp(int **p, A *&r); auto tr(int x) -> double; void kw(int lambda, int from, int None);
struct C { C(); C(int a, int b = 2, A c = A()); explicit C(A const &); C(C const &); C(C &&); C(int (*f)(int), int d = 1); C(double, ...);
 void m0() const; void m1(int a = 1, int b = 2); void m1(double); int m2(C const &c, E e = e0) const; static int s1(int a, int b = 5); static void s2(C); C &ch(); C const &ch() const; C *pt(int = 3);
 void m11(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k = 3); void mc(void (*f)(int), int z = 2); void ref() &; void cref() const &; };
struct Ab { Ab(int a, int b = 1); virtual void pv(int x) = 0; virtual ~Ab(); }; struct Vi { Vi(int a, int b = 2); Vi(Vi const &); Vi(double); virtual int v(); };
struct Cd { Cd(int a = 0); }; struct Ce { Ce(int a = 0, int b = 0); Ce(Ce &); };
namespace ns { struct Z {}; void g(Z z = Z(), int i = 0); void g(int); } void usens(ns::Z, ns::Z const * = nullptr);
