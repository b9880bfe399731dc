#pragma once
struct NoDef { NoDef(int); }; struct R : public NoDef { R() : NoDef(1) {} }; struct D : public R { int d; }; struct E : public D {}; struct RD : public NoDef { RD() = default; }; struct F : public RD {}; struct G : public NoDef {}; struct H : public G {};
struct Mem { NoDef nd; }; struct Ref { int &r; }; struct Cst { const int c; }; struct CstI { const int c = 1; NoDef n{2}; int &r = *new int; }; struct MemArr { Mem m[2]; }; struct Priv { private: Priv(); }; struct MP { Priv p; }; union U { Mem m; int i; U(); }; union U2 { int i; const int j; }; struct Anon { union { int a; float b; }; }; struct Prot { protected: Prot(); }; struct BP : public Prot {}; struct MPr { Prot p; }; struct Bit { int : 3; int x; }; struct DerMem : public Mem {};
