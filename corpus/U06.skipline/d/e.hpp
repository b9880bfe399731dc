#pragma once
void de();
