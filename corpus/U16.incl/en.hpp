#pragma once
enum En : int { e0 };
