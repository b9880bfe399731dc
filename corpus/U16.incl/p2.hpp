#pragma once
#include <p1.hpp>
struct P2 { P1 g(); };
