#pragma once
namespace n1 { struct A { int a; }; } namespace n2 { struct B { int b; }; } namespace n1 { struct C { int c; }; void fc(C); } namespace n1 { namespace deep { namespace er { void x(); } } }
