#pragma once
#include <endian.h>
