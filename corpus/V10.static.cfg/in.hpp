#pragma once
struct A { int &m(); static int &s(); int *p() const; static int const *sp(); int &&rr(); static int &&srr(); A &operator=(int); A self(); static void o(int); void o(double); static A *make(); A &ref(A &); void v(); static void v2(int); void v2(); };
int &g(); int const &gc(); int *gp(); int &&gr(); A *ga(); A va(); A const &ra(A const &); void (*fp())(int);
template<class T> struct T1 { T &get(); static T *st(); }; inline void u() { T1<int> t; T1<A> s; }
namespace q { A &qa(A *); A const *qb(); }
