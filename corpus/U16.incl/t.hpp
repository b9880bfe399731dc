#pragma once
template<class T> struct T1 { T *t; T *g(); }; template<template<class> class TT> struct T2 { int i; }; template<int (*F)()> struct T3 { int i; }; template<class T, T v> struct T4 { int k; }; enum En : int; struct Fw; void fw(Fw *); struct MT { template<class T> void mt(T *); };
