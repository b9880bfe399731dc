#pragma once
namespace r { enum class E { a = 1, b = 2, first = 1 }; enum F { x, y = 0, z }; enum struct G : unsigned char { g = 254, h }; enum H : long long { big = -5000000000LL, neg = -1 }; enum { anon1, anon2 }; enum Fwd : int; enum class Fc; enum class Fc { fc1, fc2 }; enum Empty {}; enum class EmptyC {};
struct S { enum I { i1, i2 = i1 }; enum class J { j }; enum { hidden }; I i; J j; protected: enum P { p }; private: enum Q { q }; }; template <class T> struct T1 { enum K { k1 = sizeof(T) }; K k; }; inline void u() { T1<int> t; } }
enum Global { ga, gb = ga + 5 };
