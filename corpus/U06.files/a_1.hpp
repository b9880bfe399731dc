#pragma once
namespace n2 { struct D { int d; }; } struct G { int g; };
