#pragma once
namespace a { template<class T> struct F; template<class T> struct G { T t; }; struct D : public G<int> { int d; }; } namespace b { struct E : public a::D { int e; }; }
