#pragma once
struct O { int v;
 O operator+() const; O operator+(O const &) const;
 O operator-() const; O operator-(O const &) const;
 O operator*() const; O operator*(O const &) const;
 O operator/(O const &);
 O operator%(O const &);
 O operator^(O const &);
 O operator&() const; O operator&(O const &) const;
 O operator|(O const &);
 O operator~() const;
 O operator!() const;
 O operator=(O const &);
 O operator<(O const &);
 O operator>(O const &);
 O operator+=(O const &);
 O operator-=(O const &);
 O operator*=(O const &);
 O operator/=(O const &);
 O operator%=(O const &);
 O operator^=(O const &);
 O operator&=(O const &);
 O operator|=(O const &);
 O operator<<(O const &);
 O operator>>(O const &);
 O operator>>=(O const &);
 O operator<<=(O const &);
 O operator==(O const &);
 O operator!=(O const &);
 O operator<=(O const &);
 O operator>=(O const &);
 O operator&&(O const &);
 O operator||(O const &);
 O &operator++(); O operator++(int);
 O &operator--(); O operator--(int);
 O operator,(O const &);
 O operator->*(O const &);
 O *operator->();
 int operator()(); int operator()(int); int operator()(int, int) const;
 int &operator[](int); int const &operator[](int) const;
 operator int() const; operator bool(); };
O operator+(O const &, int); bool operator==(O const &, int);
struct O2 { O2 operator-(O2 const &); O2 operator+(); O2 &operator--(int); O2 &operator++(); O2 operator*(); void operator*(int); O2 *operator&(); int operator&(int); };
