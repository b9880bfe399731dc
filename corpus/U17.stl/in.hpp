#pragma once
#include <vector>
#include <map>
#include <string>
#include <set>
#include <memory>
#include <array>
#include <functional>
#include <complex>
namespace w { struct A { bool operator<(A const &) const; }; void f(std::vector<A>, std::map<int, A>, std::set<A> const &, std::vector<std::vector<bool> >, std::pair<int, A>, std::function<bool(int, bool)>, std::complex<double>, std::string const &, std::vector<std::string>::iterator, std::map<std::string, std::vector<A> > *, std::shared_ptr<A>, std::unique_ptr<A> &, std::array<A, 3>, std::vector<A>::const_iterator, std::vector<A, std::allocator<A> >); struct H { std::vector<A> va; std::string s; std::vector<A> const cva; std::pair<A, bool> pr; }; }
