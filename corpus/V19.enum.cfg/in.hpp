#pragma once
enum A { a0, a1 = 5, a2, a3 = 5, aneg = -1 }; enum class B { x, y = 3 }; enum struct C { z }; enum D : unsigned char { d0 = 255 }; enum class E : long { big = 1L << 40 }; enum { anon0 }; enum F : int; enum F : int { f0 }; typedef enum { t0 } T; typedef enum Tn { n0 } Tm; enum Empty {}; enum class Dup { q, w = q, e = 7 };
namespace n { enum A { a0 }; namespace { enum H { h0 }; } enum class K { a0 }; } struct S { enum I { i0, i1 }; enum class J { j0 }; enum { an0, an1 }; private: enum P { p0 }; protected: enum Q { q0 }; public: struct In { enum R { r0 }; }; I i(J); enum class Fw : int; }; enum class S::Fw : int { fw }; template<class T> struct Tt { enum U { u0 }; enum class Uc { uc0 }; T t; }; inline void u() { Tt<int> t; } void g(A, B, n::A, S::I, F, Tm); enum class Kw { None, True, lambda, from };
/// documented "enum"
enum Doc { one, ///< the \one
 two };
