#pragma once
namespace we { void w(); }
