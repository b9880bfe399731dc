#pragma once
#include <d.hpp>
namespace root { struct C { void n(D &); }; }
