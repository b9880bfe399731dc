#pragma once
#include <p3.hpp>
#include <t.hpp>
#include <en.hpp>
int fun(); struct Fw { int f; }; T1<P1> u1(); T1<T1<P2> > u2(T1<P3> *); void u3(T2<T1>, T3<fun>, T4<En, e0>); void u4(En); inline void um(MT &m, P1 *p) { m.mt(p); } struct Vt { virtual T1<Fw> v(P3 const &); struct In { virtual void q(P2); }; }; struct Der : public Vt, public P3 {};
