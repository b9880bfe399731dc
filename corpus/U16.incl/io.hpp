#pragma once
#include <user.hpp>
#include <iosfwd>
std::ostream &operator<<(std::ostream &, Der const &); std::ostream &operator<<(std::ostream &, Vt::In const &); template<class T> std::ostream &operator<<(std::ostream &, T1<T> const &); namespace io { struct O { int o; }; std::ostream &operator<<(std::ostream &o, O const &); }
