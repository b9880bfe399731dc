#pragma once
void d_e(); namespace n3 { enum E { e }; }
