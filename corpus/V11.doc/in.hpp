#pragma once
namespace r {
/// say "hello" and \\ back\slash, 'single', tab	end ?? trigraph ??/ percent %d {} {0}
/// second line
///
/// new paragraph \n literal
void f(int);
/** block "quoted"
 *  * star \a b
 *  @param x the "x"
 *  @return nothing \\
 */
void g(int x);
/// class doc "A" \ end
struct A { /// ctor "doc" \
 A(int); /// field "doc"
 int v; ///< trailing \ doc
 /// method "doc"
 void m(int a = 1); /** inner */ struct In { int w; }; /// static doc
 static void s(); /// virt "doc"
 virtual void vf(); };
/// enum doc "E"
enum E { a, ///< value "a"
 b };
///      indented    
///
void h(); //! bang
//! bang doc
void k();
void nodoc(); // plain comment
}
