#pragma once
#include <a.hpp>
namespace n { struct B : public A { void b(A *); }; namespace o { void f(B const &); } }
