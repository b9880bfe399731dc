#pragma once
namespace xy { void x(); }
