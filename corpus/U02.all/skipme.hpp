#pragma once
struct SK { int s; };
