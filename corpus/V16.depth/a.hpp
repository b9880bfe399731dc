#pragma once
#include <c.hpp>
namespace root { struct B { void m(C &); }; }
