#pragma once
namespace r { struct A { int v; struct In { int w; struct Deep { int z; enum E { e1 }; }; In(int); }; template <class T> struct Tn { T t; Tn(T); }; Tn<int> tn(); union U { int a; float b; }; class Priv; enum class Ev { q }; protected: struct Pt { int p; }; public: struct Late; }; struct A::Late : public A::In { Late(); virtual void v(); }; }
namespace s { struct H { H(); protected: ~H(); }; struct H2 { private: ~H2(); public: void f(); }; struct HD : public H { int d; }; struct Buf { struct B2 { int x; }; int y; }; namespace t { struct Z { int z; }; } }
