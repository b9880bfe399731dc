#pragma once
struct EX { int s; };
