#pragma once
/// plain
void f1();
/** back\slash and "quotes" and 'single'
 *  second line	tab
 *
 *  \param x the x
 */
void f2(int x);
/*! ends with backslash \ */
void f3();
/// one
/// two "
/// three \n \" \\ end
struct A {
 int u; ///< trailing \"doc"
 /// member doc \t
 void m(int a = 1);
 /// const member "q"
 int c() const;
 /// static
 static void s(); /// ctor
 A(); /// inner "enum"
 enum E { x, y }; /// inner class \x
 struct In { int i; }; };
/// enum doc "e"
enum E2 { /// value
 v1 };
/// ??/ trigraph and %s and {0} {} braces
void f4();
/** @brief unicode é ü – dash */
void f5();
//! template "doc"
template<class T> struct T1 { /// field
 T t; /// fn {1}
 T g(); }; inline void u() { T1<int> a; }
/// R"(raw)" )" text
void f6();
//
void f7();
/// virtual {x}
struct V { /// vdoc "v"
 virtual void v(); };
