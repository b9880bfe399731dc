#pragma once
struct A { struct W{int i;}; struct X; int j; }; struct B { struct Y{int i;}; struct Z : public A::W{}; int k; }; struct A::X : public B::Y {};
