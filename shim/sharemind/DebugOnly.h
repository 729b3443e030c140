#pragma once
#define SHAREMIND_DEBUG_ONLY(...) __VA_ARGS__
