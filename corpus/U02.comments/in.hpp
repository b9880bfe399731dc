#pragma once
namespace a { struct A { int x; }; }
namespace b { struct B { int x; }; void f(); }
