#pragma once
namespace a { namespace b { namespace c { void f(int); } } namespace b { void g(int); } } namespace a { void h(int); struct S { int s; }; } void top(int); namespace z { namespace y { enum E { e }; } } namespace a { void h2(int); }
