#pragma once
namespace n { struct A { int a; }; }
