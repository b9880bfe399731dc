// Driver protocol for replaying contract inputs on the compiled functions of /repo.
// One case per line: space separated tokens, strings hex encoded ("x<hex>"), vectors "v<n>" then elements,
// sets likewise, maps "m<n>" then key value pairs, integers "i<n>".  One answer line per case: the same encoding,
// or "throw".
#pragma once
#include <sstream>
#include <fstream>
#include <iostream>
#include <set>
#include <map>
#include <list>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
#include <memory>
#include <algorithm>
#include <config.hpp>
#include <util.hpp>
#include <options.hpp>
#include <context.hpp>
#include <binder.hpp>
#include <type.hpp>
#include <enum.hpp>
#include <function.hpp>
#include <class.hpp>
using std::string;
using std::vector;
struct In {
	std::istringstream f;
	explicit In(string const &l) : f(l) {}
	string tok() { string t; f >> t; return t; }
	string s() {
		string t = tok(), r;
		for(size_t i = 1; i + 1 < t.size(); i += 2) r += char(std::stoi(t.substr(i, 2), nullptr, 16));
		return r;
	}
	long i() { return std::stol(tok().substr(1)); }
	bool b() { return i() != 0; }
	vector<string> v() {
		vector<string> r;
		for(long n = i(); n > 0; --n) r.push_back(s());
		return r;
	}
	std::set<string> set() { auto x = v(); return std::set<string>(x.begin(), x.end()); }
	template <typename M = std::map<string, string>> M m() {
		M r;
		for(long n = i(); n > 0; --n) { string k = s(); r[k] = s(); }
		return r;
	}
};
struct Out {
	string o;
	void tok(string const &t) { if( o.size() ) o += ' '; o += t; }
	void put(string const &s) {
		static char const *h = "0123456789abcdef";
		string r = "x";
		for(unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
		tok(r);
	}
	void put(char const *s) { put(string(s)); }
	void put(bool b) { tok(b ? "i1" : "i0"); }
	void put(long n) { tok("i" + std::to_string(n)); }
	void put(int n) { put(long(n)); }
	void put(unsigned long n) { put(long(n)); }
	template <typename C> void seq(C const &c) { tok("v" + std::to_string(c.size())); for( auto const &x : c ) put(x); }
	void put(vector<string> const &c) { seq(c); }
	void put(std::list<string> const &c) { seq(c); }
	void put(std::set<string> const &c) { seq(c); }
	template <typename A, typename B> void put(std::pair<A, B> const &p) { put(p.first); put(p.second); }
	template <typename M> void map(M const &c) {
		std::map<typename M::key_type, typename M::mapped_type> s(c.begin(), c.end());
		tok("m" + std::to_string(s.size()));
		for( auto const &x : s ) { put(x.first); put(x.second); }
	}
};
void unit(In &in, Out &out);
