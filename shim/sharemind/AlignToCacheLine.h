#pragma once
#define SHAREMIND_ALIGN_TO_CACHE_SIZE alignas(64)
