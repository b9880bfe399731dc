#pragma once
namespace a { namespace b { namespace c { void f(int); } } namespace b { void g(int); } namespace empty {} } namespace a { void h(int); struct S { int s; }; } void top(int); namespace z { namespace y { enum E { e }; } } namespace a { namespace b { namespace d { struct D { int d; }; } } } namespace a { void h2(int); }
