// Forced include of the "emu" family: the code under test as a standard library without
// std::to_chars/from_chars for floating point sees it (e.g. libc++). The namespace is renamed so that both
// variants can live in one program.
#pragma once
#include <charconv>
#include <version>
#undef __cpp_lib_to_chars
#define spb spb_emulated
