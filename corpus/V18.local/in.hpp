#pragma once
namespace r { struct A { int v; struct In { int w; }; enum E { x }; }; enum F { y }; namespace q { struct B { int b; struct I2 { int c; }; }; enum class G { g }; } } struct Top { int t; }; enum TE { te };
