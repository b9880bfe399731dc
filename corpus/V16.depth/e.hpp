#pragma once
namespace root { struct E { int e; }; enum class Ee { z }; }
