// Stand-in for the header of the same name in sharemind's compiler-support package: the workaround is
// needed by clang before 3.7 only; for every other compiler it is the expression itself.
#pragma once
#define SHAREMIND_CLANGPR22637_WORKAROUND(...) __VA_ARGS__
