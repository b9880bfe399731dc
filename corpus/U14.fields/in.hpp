#pragma once
struct NA { NA &operator=(NA const &) = delete; NA(NA const &); }; struct PA { private: PA &operator=(PA const &); }; struct OK { int i; }; typedef NA NAT; typedef const int CI; using PAU = PA; struct HasRef { int &r; HasRef(); }; struct HasConst { const int c = 1; }; template<class T> struct TN { TN &operator=(TN const &) = delete; T t; }; namespace n { struct NN { NN &operator=(NN const &) = delete; }; } struct Mv { Mv &operator=(Mv &&); Mv(Mv const &); }; struct NAD : NA {}; struct NAM { NA na; }; struct Two { Two &operator=(Two &); Two &operator=(int); }; struct HCD : public HasConst { int q; }; struct HCM { HCD m[2]; }; struct HCA { const int ca[2]; HCA(); };
enum En { e0 }; enum class Ec { c0 }; struct Fwd;
struct S { int a; const int b = 1; NA na; PA pa; OK ok; NAT nat; CI ci = 2; PAU pau; int *p; int &r; int arr[3]; OK oarr[2]; const OK cok; HasRef hr; HasConst hc; TN<int> tn; n::NN nn; struct NA sna; Mv mv; NAD nad; NAM nam; En en; Ec ec; const En cen = e0; Fwd *fw; OK const * const pc = nullptr; char c; bool bo; float f; volatile int v; mutable int mu; static int st; static const int sc = 1; unsigned u : 4; void (*fp)(int); int S::*mp; Two two; OK *arrp[2]; long double ld; union { int x; float y; }; struct { int z; } w; struct In { int q; } in; HCD hcd; HCM hcm; HCA hca; S(); };
