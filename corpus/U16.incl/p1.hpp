#pragma once
struct P1 { int i; };
