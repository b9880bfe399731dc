#pragma once
namespace r { struct X { int v; }; struct A { void set(int); void set(char) const; void set(X const &); void set(X &) const; void get(int); void get(int) const; void two(int, char) const; void two(char, int);
 int val() const; int &val(); X const &x() const; X &x(); protected: void pr(int); public: void pr(int) const; private: int pv() ; public: int pv() const; static void s(int); void s(int, int) const; void tm(bool) const; void tm(bool); bool tb() const; };
template <class T> struct B { void put(T) const; void put(T); T const *at(int) const; T *at(int); void only(T) const; }; inline void use() { B<int> b; B<A> c; }
struct D : public A { void set(int) const; using A::get; using A::set; protected: using A::two; }; }
