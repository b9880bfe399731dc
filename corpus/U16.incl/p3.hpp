#pragma once
#include <p2.hpp>
struct P3 { P2 h(P2 &); void loop(P3); };
