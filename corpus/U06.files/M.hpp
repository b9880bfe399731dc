#pragma once
namespace M { void m(); } void mm();
