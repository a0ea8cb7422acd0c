#pragma once
// offsets of the fields the contracts talk about, as constants the checker reads back from the IR
#include <cstddef>
#define OFF(NAME, ...) extern "C" { extern const unsigned long OFF_##NAME; const unsigned long OFF_##NAME = __VA_ARGS__; }
#define SZ(NAME, ...) extern "C" { extern const unsigned long SZ_##NAME; const unsigned long SZ_##NAME = sizeof(__VA_ARGS__); }
