#pragma once
#include <vector>
#include <string>
#include <map>
namespace w { struct A { int a; }; void f(std::vector<int> const &); std::string s(std::map<std::string, A> m); struct B : public std::vector<A> { int b; }; }
