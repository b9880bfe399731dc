#pragma once
namespace n { struct V { virtual void a(int); virtual void b(); virtual int c() const; virtual void d(double); virtual ~V(); }; struct W { virtual void p() = 0; virtual void q(); }; struct X : public W { void p(); }; struct Y : public V { void a(int) override; virtual void y(); }; template<class T> struct T1 { virtual T t(); virtual void s(T) = 0; }; inline void u(T1<int> *); }
